@let st = each(range(0, ActionGotoTable.state_count))
@let tk = each(Grammar.tokens)
@let np = each(Grammar.productions)
@let an = each(Grammar.anonymous_non_terminals)
@let rr = each(?ix)
@let E = ActionGotoTable.entries
@let LHS = Symbol::NonTerminal{0: rr.0.lhs!Some}
@def ACTION(SYM, NAME)
  @if contains(E, (st, SYM)) & at(mapval(E, (st, SYM)), 0) is Reduce
    case lexer::TokenType::NAME:
    {
    Action act{ActionType::Reduce, «mapval(?ix, at(mapval(E, (st, SYM)), 0)!Reduce.rule)»};
    return act;
    }
  @end
  @if contains(E, (st, SYM)) & at(mapval(E, (st, SYM)), 0) is Shift
    case lexer::TokenType::NAME:
    {
    Action act{ActionType::Shift, 0};
    return act;
    }
  @end
@enddef
@def EXPECTED(SYM, NAME)
  @if contains(E, (st, SYM)) & at(mapval(E, (st, SYM)), 0) is Shift|Reduce
    'NAME',
  @end
@enddef
@def GOTO(SYM, NAME)
  @if contains(E, (st, SYM)) & at(mapval(E, (st, SYM)), 0) is Accept
    case NAME:
    {
    Transition transition{0, true};
    return transition;
    }
  @end
  @if contains(E, (st, SYM)) & at(mapval(E, (st, SYM)), 0) is Shift
    case NAME:
    {
    Transition transition{«at(mapval(E, (st, SYM)), 0)!Shift.target», false};
    return transition;
    }
  @end
@enddef
#include "parser_impl.h"
#include <sstream>
namespace parser
{
void throw_unexpected_token_error(const char* expected, lexer::TokenType got) {
std::ostringstream os;
os << "Unexpected token '" << lexer::get_token_name(got) << "', expected one of: " << expected;
throw std::runtime_error(os.str());
}
Action determine_action(uint32_t state, const lexer::TokenType &lookahead_token)
{
switch (state) {
@for st
  case «st»: {
  switch (lookahead_token) {
  @for tk
    @use ACTION(tk.0, TK_«tk.1»)
  @end
  @use ACTION(Symbol::End, TK_EOF)
  default:
  throw_unexpected_token_error("
  @for tk
    @use EXPECTED(tk.0, «tk.1»)
  @end
  @use EXPECTED(Symbol::End, <EOF>)
  ", lookahead_token);
  }
  }
  break;
@end
default:
// Encountered a parser state that does not exist.
std::terminate();
}
}
void reduce_stack(uint32_t rule, std::vector<Symbol> &parse_stack, std::vector<Symbol> &rev_reduced_symbols)
{
switch(rule) {
@for rr
  case «rr.1»: {
  @if pos(count(each(rr.0.rhs), not(is(each(rr.0.rhs), Epsilon))))
    for (size_t i = 0; i < «count(each(rr.0.rhs), not(is(each(rr.0.rhs), Epsilon)))»; i++) {
    parse_stack.pop_back();
    Symbol reduced_symbol = parse_stack.back();
    rev_reduced_symbols.push_back(reduced_symbol);
    parse_stack.pop_back();
    }
  @end
  Symbol reduced_non_terminal{SymbolKind::NonTerminal, static_cast<uint32_t>(NonTerminalType::\
  @if contains(Grammar.productions, LHS)
    NT_«to_uppercase(mapval(Grammar.productions, LHS))»
  @else
    NT_ANON«rr.0.lhs!Some»
  @end
  )};
  parse_stack.push_back(reduced_non_terminal);
  return;
  }
@end
default:
// Tried reducing non-existent rule.
std::terminate();
}
}
Transition retrieve_next_state(uint32_t state, const Symbol &current_symbol)
{
switch (state) {
@for st
  @if state_has_shift(ActionGotoTable, st, Grammar)
    case «st»: {
    if (current_symbol.kind == SymbolKind::Terminal) {
    switch (static_cast<lexer::TokenType>(current_symbol.identifier)) {
    @for tk
      @use GOTO(tk.0, lexer::TokenType::TK_«tk.1»)
    @end
    default:
    std::terminate();
    }
    } else if (current_symbol.kind == SymbolKind::NonTerminal) {
    switch (static_cast<parser::NonTerminalType>(current_symbol.identifier)) {
    @for np
      @use GOTO(np.0, NonTerminalType::NT_«to_uppercase(np.1)»)
    @end
    @for an
      @use GOTO(an, NonTerminalType::NT_ANON«an!NonTerminal»)
    @end
    default:
    std::terminate();
    }
    } else {
    std::terminate();
    }
    }
    break;
  @end
@end
default:
// Encountered a parser state that does not exist.
std::terminate();
}
}
}
