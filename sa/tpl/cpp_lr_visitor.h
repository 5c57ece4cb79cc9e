#pragma once
#include "tokens.h"
namespace parser
{
template <class T>
class Visitor
{
public:
virtual void shift(lexer::TokenType tk_type, T data) = 0;
@let nt = each(?by)
@let ru = each(nt.1)
@for nt
  @if pos(len(nt.1) - 1)
    @for ru
      virtual void reduce_\
      @if contains(Grammar.productions, nt.0)
        «mapval(Grammar.productions, nt.0)»\
      @else
        anon«nt.0!NonTerminal»\
      @end
      _«idx(nt.1, _) + 1»() = 0;
    @end
  @else
    virtual void reduce_\
    @if contains(Grammar.productions, nt.0)
      «mapval(Grammar.productions, nt.0)»\
    @else
      anon«nt.0!NonTerminal»\
    @end
    () = 0;
  @end
@end
};
}
