#pragma once
#include "parser.h"
#include <stack>
#include <queue>
#include <iostream>
namespace parser
{
enum class SymbolKind : uint8_t
{
Terminal,
NonTerminal,
ExitNonTerminal
};
struct Symbol
{
SymbolKind kind;
uint32_t identifier;
};
void push_production_from_table(Symbol non_terminal, lexer::TokenType lookahead, std::stack<Symbol> &parse_stack);
void throw_unexpected_token_error(lexer::TokenType expected, lexer::TokenType got);
enum class NonTerminalType : uint32_t
{
@for each(Grammar.productions)
  NT_«to_uppercase(each(Grammar.productions).1)»,
@end
@for each(Grammar.anonymous_non_terminals)
  NT_ANON«each(Grammar.anonymous_non_terminals)!NonTerminal»,
@end
};
template <class T>
void exit_visitor(Visitor<T>& visitor, NonTerminalType non_terminal)
{
switch (non_terminal) {
@for each(Grammar.productions)
  case NonTerminalType::NT_«to_uppercase(each(Grammar.productions).1)»:
  visitor.exit_«each(Grammar.productions).1»();
  break;
@end
}
}
template <class T>
void enter_visitor(Visitor<T>& visitor, NonTerminalType non_terminal)
{
switch (non_terminal) {
@for each(Grammar.productions)
  case NonTerminalType::NT_«to_uppercase(each(Grammar.productions).1)»:
  visitor.enter_«each(Grammar.productions).1»();
  break;
@end
}
}
template <class T>
Parser<T>::Parser(std::function<Token<T>()> token_function, Visitor<T> &visitor) : token_function(token_function), visitor(visitor) {}
template <class T>
void Parser<T>::parse()
{
std::queue<std::pair<lexer::TokenType, T>> lookahead;
lookahead.push(this->token_function());
std::stack<Symbol> parse_stack;
Symbol end{SymbolKind::Terminal, static_cast<uint32_t>(lexer::TokenType::TK_EOF)};
parse_stack.push(end);
Symbol entry{SymbolKind::NonTerminal, static_cast<uint32_t>(NonTerminalType::\
@if contains(Grammar.productions, Grammar.entry_symbol)
  NT_«to_uppercase(mapval(Grammar.productions, Grammar.entry_symbol))»\
@else
  NT_ANON«Grammar.entry_symbol!NonTerminal»\
@end
)};
parse_stack.push(entry);
while (parse_stack.size() > 0)
{
Symbol current = parse_stack.top();
parse_stack.pop();
auto lookahead_token_and_data = lookahead.front();
lexer::TokenType lookahead_tk = lookahead_token_and_data.first;
if (current.kind == SymbolKind::ExitNonTerminal)
{
exit_visitor(this->visitor, static_cast<NonTerminalType>(current.identifier));
}
else if (current.kind != SymbolKind::Terminal)
{
Symbol nt_exit_symbol{SymbolKind::ExitNonTerminal, current.identifier};
parse_stack.push(nt_exit_symbol);
push_production_from_table(current, lookahead_tk, parse_stack);
enter_visitor(this->visitor, static_cast<NonTerminalType>(current.identifier));
}
else
{
if (current.identifier != static_cast<uint32_t>(lookahead_tk))
{
throw_unexpected_token_error(static_cast<lexer::TokenType>(current.identifier), lookahead_tk);
}
this->visitor.token(lookahead_tk, lookahead_token_and_data.second);
lookahead.pop();
lookahead.push(this->token_function());
}
}
}
}
