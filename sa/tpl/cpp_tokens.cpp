#include "tokens.h"
namespace lexer
{
const char *get_token_name(TokenType tk_type) {
switch (tk_type) {
case TokenType::TK_ERR:
return "<ERR>";
case TokenType::TK_EOF:
return "<EOF>";
@for each(VecSpanned)
  case TokenType::TK_«each(VecSpanned).inner.name»:
  return "«each(VecSpanned).inner.name»";
@end
default:
return nullptr;
}
}
}
