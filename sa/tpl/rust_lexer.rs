@let cls = each(VecRangeInclusive)
@let node = each(node_references(Dfa.graph))
@let edge = each(edges_directed(Dfa.graph, node.0, Direction::Outgoing{}))
use super :: tokens :: TokenType ; # [ derive ( Debug ) ] pub enum LexerError { InvalidChar { bad_ch : u32 } , UnexpectedAlphabet { range : std :: ops :: RangeInclusive < u32 > } } impl std :: error :: Error for LexerError { } impl std :: fmt :: Display for LexerError { fn fmt ( & self , f : & mut std :: fmt :: Formatter ) -> std :: fmt :: Result { match self { LexerError :: InvalidChar { bad_ch } => write ! ( f , "Lexer got strange codepoint {}, char value is '{:?}'" , bad_ch , std :: char :: from_u32 ( * bad_ch ) ) , LexerError :: UnexpectedAlphabet { range } => write ! ( f , "Lexer got char in unexpected range: {:?}" , range ) } } } pub struct Lexer < 'src > { src : & 'src str , char_iter : std :: iter :: Peekable < std :: str :: Chars < 'src >> , start : usize , position : usize } impl < 'src > Lexer < 'src > { pub fn new ( src : & 'src str ) -> Self { let char_iter = src . chars ( ) . peekable ( ) ; Lexer { src , char_iter , start : 0 , position : 0 } } fn get_alphabet_index ( c : u32 ) -> Option < usize > { match c {
@for cls
  @if eq(start(cls), end(cls))
    «start(cls)» => Some ( «idx(VecRangeInclusive, 0)» ) ,
  @end
  @if !eq(start(cls), end(cls))
    «start(cls)» ..= «end(cls)» => Some ( «idx(VecRangeInclusive, 0)» ) ,
  @end
@end
_ => None } } fn get_alphabet_range ( c : usize ) -> Option < std :: ops :: RangeInclusive < u32 >> { match c {
@for cls
  «idx(VecRangeInclusive, 0)» => Some ( «start(cls)» ..= «end(cls)» ) ,
@end
_ => None } } pub fn next ( & mut self ) -> Result < TokenType , LexerError > { let mut state : usize = 0 ; self . start = self . position ; loop { let next_ch = self . char_iter . peek ( ) . copied ( ) . map ( | c | c as u32 ) . unwrap_or ( 0 ) ; let symbol = if let Some ( symbol ) = Lexer :: get_alphabet_index ( next_ch ) { symbol } else { return Err ( LexerError :: InvalidChar { bad_ch : next_ch } ) ; } ; match ( state , symbol ) {
@for node
  @if eq(index(node.0), 0)
    ( «index(node.0)» , 0 ) => { return Ok ( TokenType :: EndOfFile ) ; } ,
  @end
  @for edge
    @if !eq(weight(edge), 0)
      ( «index(node.0)» , «weight(edge)» ) => { let next_ch = self . char_iter . next ( ) . unwrap ( ) ; self . position += next_ch . len_utf8 ( ) ; state = «index(target(edge))» ; } ,
    @end
  @end
  @if node.1 is Intermediate
    ( «index(node.0)» , transition ) => { return Err ( LexerError :: UnexpectedAlphabet { range : Lexer :: get_alphabet_range ( transition ) . unwrap ( ) } ) ; } ,
  @end
  @if node.1 is Accepting
    ( «index(node.0)» , _ ) => { return Ok ( TokenType :: «lapex_rust_codegen::get_token_enum_name(node.1!Accepting.0.name)» ) ; } ,
  @end
@end
( _ , _ ) => unreachable ! ( ) } } } pub fn span ( & self ) -> std :: ops :: Range < usize > { self . start .. self . position } pub fn slice ( & self ) -> & 'src str { & self . src [ self . span ( ) ] } }
