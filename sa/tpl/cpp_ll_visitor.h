#pragma once
#include "tokens.h"
namespace parser
{
template <class T>
class Visitor
{
public:
virtual void token(lexer::TokenType tk_type, T data) = 0;
@for each(Grammar.productions)
  virtual void enter_«each(Grammar.productions).1»() = 0;
  virtual void exit_«each(Grammar.productions).1»() = 0;
@end
};
}
