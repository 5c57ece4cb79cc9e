# [ derive ( Clone , Copy , Debug ) ] pub enum TokenType { EndOfFile ,
@for each(VecSpanned)
  «lapex_rust_codegen::get_token_enum_name(each(VecSpanned).inner.name)»,
@end
}
