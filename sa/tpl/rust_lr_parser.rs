@let st = each(range(0, ActionGotoTable.state_count))
@let tk = each(Grammar.tokens)
@let np = each(Grammar.productions)
@let an = each(Grammar.anonymous_non_terminals)
@let nt = each(?by)
@let ru = each(nt.1)
@let E = ActionGotoTable.entries
@let known = contains(Grammar.productions, nt.0)
@def VISITNAME()
  reduce_\
  @if known
    «mapval(Grammar.productions, nt.0)»\
  @else
    anon«nt.0!NonTerminal»\
  @end
@enddef
@def ALTNAME()
  @use VISITNAME()
  @if known & ru.rule.inner.tag is Some
    _«ru.rule.inner.tag!Some»
  @else
    _«idx(nt.1, _) + 1»
  @end
@enddef
@def ACTION(SYM, NAME)
  @if contains(E, (st, SYM)) & at(mapval(E, (st, SYM)), 0) is Reduce
    ( «st» , TokenType :: NAME ) => Ok ( Action :: Reduce { rule : ReducedRule :: Rule«mapval(?ix, at(mapval(E, (st, SYM)), 0)!Reduce.rule)» } ) ,
  @end
  @if contains(E, (st, SYM)) & at(mapval(E, (st, SYM)), 0) is Shift
    ( «st» , TokenType :: NAME ) => Ok ( Action :: Shift ) ,
  @end
@enddef
@def GOTO(SYM, TEXT)
  @if contains(E, (st, SYM)) & at(mapval(E, (st, SYM)), 0) is Accept
    ( «st» , StackSymbol :: TEXT ) => Goto :: Accept ,
  @end
  @if contains(E, (st, SYM)) & at(mapval(E, (st, SYM)), 0) is Shift
    ( «st» , StackSymbol :: TEXT ) => Goto :: State { state_id : «at(mapval(E, (st, SYM)), 0)!Shift.target» } ,
  @end
@enddef
@def EXPECTED(SYM, NAME)
  @if contains(E, (st, SYM)) & at(mapval(E, (st, SYM)), 0) is Shift|Reduce
    TokenType :: NAME ,
  @end
@enddef
use super :: tokens :: TokenType ; pub trait Visitor < T > { fn shift ( & mut self , token : TokenType , data : T ) ;
@for nt
  @if pos(len(nt.1) - 1)
    @for ru
      ///
      fn \
      @use ALTNAME()
      ( & mut self ) ;
    @end
  @else
    ///
    fn \
    @use VISITNAME()
    ( & mut self ) ;
  @end
@end
} pub struct Parser < T , F : FnMut ( ) -> ( TokenType , T ) , V : Visitor < T >> {
token_function : F , visitor : V , }
# [ derive ( Debug , Clone , Copy ) ] enum NonTerminalType {
@for np
«get_non_terminal_enum_name(Grammar, np.0)» ,
@end
@for an
«get_non_terminal_enum_name(Grammar, an)» ,
@end
} # [ derive ( Debug , Clone , Copy ) ] enum StackSymbol {
Terminal {
token : TokenType }
, NonTerminal {
non_terminal : NonTerminalType }
, State {
state_id : usize }
, }
# [ derive ( Clone , Copy ) ] enum ReducedRule {
@for each(?ix)
Rule«each(?ix).1» ,
@end
} enum Action {
Shift , Reduce {
rule : ReducedRule }
} enum Goto {
Accept , State {
state_id : usize }
} # [ derive ( Debug ) ] pub enum ParserError {
UnexpectedToken {
got : TokenType , expected : Vec < TokenType > }
} impl std :: error :: Error for ParserError {
} impl std :: fmt :: Display for ParserError {
fn fmt ( & self , f : & mut std :: fmt :: Formatter ) -> std :: fmt :: Result {
match self {
ParserError :: UnexpectedToken {
got , expected }
=> write ! ( f , "Unexpected token {:?}, expected one of: {:?}" , got , expected ) , }
} }
impl < T , F : FnMut ( ) -> ( TokenType , T ) , V : Visitor < T >> Parser < T , F , V > {
pub fn new ( token_function : F , visitor : V ) -> Self {
Parser {
token_function , visitor , }
} fn next_action ( & self , state : usize , next_token : TokenType ) -> Result < Action , ParserError > {
match ( state , next_token ) {
@for st
  @for tk
    @use ACTION(tk.0, «get_token_enum_name(tk.1)»)
  @end
  @use ACTION(Symbol::End, EndOfFile)
  ( «st» , _ ) => Err ( ParserError :: UnexpectedToken { got : next_token , expected : vec ! [
  @for tk
    @use EXPECTED(tk.0, «get_token_enum_name(tk.1)»)
  @end
  @use EXPECTED(Symbol::End, EndOfFile)
  ] } ) ,
@end
( _ , _ ) => unreachable ! ( ) }
} fn next_goto ( & self , state : usize , symbol : StackSymbol ) -> Goto {
match ( state , symbol ) {
@for st
  @for tk
    @use GOTO(tk.0, Terminal { token : TokenType :: «get_token_enum_name(tk.1)» })
  @end
  @for np
    @use GOTO(np.0, NonTerminal { non_terminal : NonTerminalType :: «get_non_terminal_enum_name(Grammar, np.0)» })
  @end
  @for an
    @use GOTO(an, NonTerminal { non_terminal : NonTerminalType :: «get_non_terminal_enum_name(Grammar, an)» })
  @end
@end
( _ , _ ) => unreachable ! ( ) }
} fn reduce_stack_and_visit ( & mut self , rule : ReducedRule , stack : & mut Vec < StackSymbol > ) {
let ( to_pop , reduced ) = match rule {
@let rr = each(?ix)
@for rr
  ReducedRule :: Rule«rr.1» => ( «count(each(rr.0.rhs), not(is(each(rr.0.rhs), Epsilon)))» , StackSymbol :: NonTerminal { non_terminal : NonTerminalType :: «get_non_terminal_enum_name(Grammar, Symbol::NonTerminal{0: rr.0.lhs!Some})» } ) ,
@end
} ;
for _ in 0 .. to_pop {
stack . pop ( ) . unwrap ( ) ;
stack . pop ( ) . unwrap ( ) ;
} stack . push ( reduced ) ;
match rule {
@for nt
  @if pos(len(nt.1) - 1)
    @for ru
      ReducedRule :: Rule«mapval(?ix, ru)» => self . visitor . \
      @use ALTNAME()
      ( ) ,
    @end
  @else
    ReducedRule :: Rule«mapval(?ix, at(nt.1, 0))» => self . visitor . \
    @use VISITNAME()
    ( ) ,
  @end
@end
} }
pub fn parse ( & mut self ) -> Result < ( ) , ParserError > {
let mut lookahead = std :: collections :: VecDeque :: new ( ) ;
lookahead . push_back ( ( self . token_function ) ( ) ) ;
let mut stack = Vec :: new ( ) ;
stack . push ( StackSymbol :: State {
state_id : «ActionGotoTable.entry_state» }
) ;
while ! stack . is_empty ( ) {
let ( next_token , _ ) = lookahead . front ( ) . unwrap ( ) ;
let state = match stack . last ( ) . unwrap ( ) {
StackSymbol :: State {
state_id }
=> * state_id , _ => unreachable ! ( ) }
; let action = self . next_action ( state , * next_token ) ? ;
match action {
Action :: Shift => {
let ( next_token , next_data ) = lookahead . pop_front ( ) . unwrap ( ) ;
stack . push ( StackSymbol :: Terminal {
token : next_token }
) ;
self . visitor . shift ( next_token , next_data ) ;
lookahead . push_back ( ( self . token_function ) ( ) ) ;
} Action :: Reduce {
rule : reduced_rule }
=> {
self . reduce_stack_and_visit ( reduced_rule , & mut stack ) ;
} }
let current_symbol = stack . last ( ) . unwrap ( ) ;
let state = match & stack [ stack . len ( ) - 2 ] {
StackSymbol :: State {
state_id }
=> * state_id , _ => unreachable ! ( ) }
; let goto = self . next_goto ( state , * current_symbol ) ;
match goto {
Goto :: Accept => {
let ( next_token , _ ) = lookahead . front ( ) . unwrap ( ) ;
if ! matches ! ( next_token , TokenType :: EndOfFile ) {
return Err ( ParserError :: UnexpectedToken {
got : * next_token , expected : vec ! [ TokenType :: EndOfFile ] }
) ;
} stack . pop ( ) ;
stack . pop ( ) ;
} Goto :: State {
state_id }
=> {
stack . push ( StackSymbol :: State {
state_id }
) }
} }
Ok ( ( ) ) }
}
