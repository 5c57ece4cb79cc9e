#pragma once
#include <cstdint>
namespace lexer
{
enum class TokenType : uint32_t
{
TK_ERR = 0,
TK_EOF = 1,
@for each(VecSpanned)
  TK_«each(VecSpanned).inner.name»,
@end
};
const char *get_token_name(TokenType tk_type);
}
