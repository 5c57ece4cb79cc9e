@let T = LLParserTable.table
@def NTNAME(S)
  @if contains(Grammar.productions, S)
    NT_«to_uppercase(mapval(Grammar.productions, S))»\
  @else
    NT_ANON«S!NonTerminal»\
  @end
@enddef
@def PUSHED(R)
  @for each(rev(R))
    @if each(rev(R)) is NonTerminal
      Symbol sym«idx(rev(R), _)»{SymbolKind::NonTerminal, static_cast<uint32_t>(NonTerminalType::\
      @use NTNAME(each(rev(R)))
      )};
      parse_stack.push(sym«idx(rev(R), _)»);
    @elif each(rev(R)) is Terminal
      Symbol sym«idx(rev(R), _)»{SymbolKind::Terminal, static_cast<uint32_t>(lexer::TokenType::TK_«mapval(Grammar.tokens, each(rev(R)))»)};
      parse_stack.push(sym«idx(rev(R), _)»);
    @end
  @end
@enddef
@def CELL(KEY, NAME)
  @if contains(T, KEY)
    case lexer::TokenType::NAME: {
    @use PUSHED(mapval(T, KEY))
    break;
    }
  @end
@enddef
@def ROW(NT, LABEL)
  switch (lookahead) {
  @for each(Grammar.tokens)
    @use CELL((NT!NonTerminal, Option::Some{0: each(Grammar.tokens).0!Terminal}), TK_«each(Grammar.tokens).1»)
  @end
  @use CELL((NT!NonTerminal, Option::None{}), TK_EOF)
  default:
  throw std::runtime_error("Encountered unknown lookahead for LABEL. Expected one of:
  @for each(Grammar.tokens)
    @if contains(T, (NT!NonTerminal, Option::Some{0: each(Grammar.tokens).0!Terminal}))
      «each(Grammar.tokens).1»,
    @end
  @end
  @if contains(T, (NT!NonTerminal, Option::None{}))
    EOF,
  @end
  ");
  }
  break;
  }
@enddef
#include "parser_impl.h"
#include <sstream>
namespace parser {
void push_production_from_table(Symbol non_terminal, lexer::TokenType lookahead, std::stack<Symbol>& parse_stack) {
switch(non_terminal.identifier) {
@for each(Grammar.productions)
  case static_cast<uint32_t>(NonTerminalType::NT_«to_uppercase(each(Grammar.productions).1)»): {
  @use ROW(each(Grammar.productions).0, production '«each(Grammar.productions).1»')
@end
@for each(Grammar.anonymous_non_terminals)
  case static_cast<uint32_t>(NonTerminalType::NT_ANON«each(Grammar.anonymous_non_terminals)!NonTerminal»): {
  @use ROW(each(Grammar.anonymous_non_terminals), anonymous production)
@end
}
}
void throw_unexpected_token_error(lexer::TokenType expected, lexer::TokenType got) {
std::ostringstream os;
os << "Unexpected token '" << lexer::get_token_name(got) << "', expected token '" << lexer::get_token_name(expected) << "'";
throw std::runtime_error(os.str());
}
}
