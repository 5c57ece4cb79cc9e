@let st = each(range(0, ActionGotoTable.state_count))
@let tk = each(Grammar.tokens)
@let np = each(Grammar.productions)
@let an = each(Grammar.anonymous_non_terminals)
@let nt = each(?by)
@let ru = each(nt.1)
@let E = ActionGotoTable.entries
@let known = contains(Grammar.productions, nt.0)
@def VISITNAME()
  reduce_\
  @if known
    «mapval(Grammar.productions, nt.0)»\
  @else
    anon«nt.0!NonTerminal»\
  @end
@enddef
@def ALTNAME()
  @use VISITNAME()
  @if known & ru.rule.inner.tag is Some
    _«ru.rule.inner.tag!Some»
  @else
    _«idx(nt.1, _) + 1»
  @end
@enddef
@def ACTION(SYM, NAME)
  @if contains(E, (st, SYM)) & exists(each(mapval(E, (st, SYM))), is(each(mapval(E, (st, SYM))), Shift, Reduce))
    ( «st» , TokenType :: NAME ) => Ok ( & [
    @for each(mapval(E, (st, SYM)))
      @if each(mapval(E, (st, SYM))) is Reduce
        Action :: Reduce { rule : ReducedRule :: Rule«mapval(?ix, each(mapval(E, (st, SYM)))!Reduce.rule)» } ,
      @elif each(mapval(E, (st, SYM))) is Shift
        Action :: Shift ,
      @end
    @end
    ] ) ,
  @end
@enddef
@def ARM(V, TEXT)
  @if V is Accept
    ( «st» , StackSymbol :: TEXT ) => Some ( Goto :: Accept ) ,
  @elif V is Shift
    ( «st» , StackSymbol :: TEXT ) => Some ( Goto :: State { state_id : «V!Shift.target» } ) ,
  @end
@enddef
@def GOTO(SYM, TEXT)
  @if contains(E, (st, SYM)) & pos(len(mapval(E, (st, SYM))) - 1)
    @for each(mapval(E, (st, SYM)))
      @use ARM(each(mapval(E, (st, SYM))), TEXT)
    @end
  @elif contains(E, (st, SYM))
    @use ARM(at(mapval(E, (st, SYM)), 0), TEXT)
  @end
@enddef
use super :: tokens :: TokenType ; pub trait Visitor < T > { fn shift ( & mut self , token : TokenType , data : T ) ;
@for nt
  @if pos(len(nt.1) - 1)
    @for ru
      ///
      fn \
      @use ALTNAME()
      ( & mut self ) ;
    @end
  @else
    ///
    fn \
    @use VISITNAME()
    ( & mut self ) ;
  @end
@end
} pub struct DebugVisitor {
} impl Visitor < ( ) > for DebugVisitor {
fn shift ( & mut self , token : TokenType , _data : ( ) ) {
println ! ( "shift {:?}" , token ) ;
}
@for nt
  @if pos(len(nt.1) - 1)
    @for ru
      fn \
      @use ALTNAME()
      ( & mut self ) { println ! ( «RuleDisplay{rule: ru, grammar: Grammar}» ) ; }
    @end
  @else
    fn \
    @use VISITNAME()
    ( & mut self ) { println ! ( «RuleDisplay{rule: at(nt.1, 0), grammar: Grammar}» ) ; }
  @end
@end
} pub struct Parser < T , E , F : FnMut ( ) -> Result < ( TokenType , T ) , E > , V : Visitor < T >> {
token_function : F , visitor : V , }
# [ derive ( Debug , Clone , Copy ) ] enum NonTerminalType {
@for np
«get_non_terminal_enum_name(Grammar, np.0)» ,
@end
@for an
«get_non_terminal_enum_name(Grammar, an)» ,
@end
} # [ derive ( Debug , Clone , Copy ) ] enum StackSymbol {
Terminal {
token : TokenType }
, NonTerminal {
non_terminal : NonTerminalType }
, }
# [ derive ( Clone , Copy ) ] enum ReducedRule {
@for each(?ix)
Rule«each(?ix).1» ,
@end
} enum Action {
Shift , Reduce {
rule : ReducedRule }
} enum Goto {
Accept , State {
state_id : usize }
} type StateId = usize ;
# [ derive ( Debug ) ] pub enum ParserError < T , E : std :: error :: Error > {
UnexpectedToken {
got : TokenType , got_data : T , expected : Vec < TokenType > , }
, LexerError {
inner : E }
, UnexpectedTokens {
got : Vec < ( TokenType , T ) > , expected : Vec < Vec < TokenType >> , }
, }
impl < T : std :: fmt :: Debug , E : std :: error :: Error > std :: error :: Error for ParserError < T , E > {
} impl < T , E : std :: error :: Error > std :: fmt :: Display for ParserError < T , E > {
fn fmt ( & self , f : & mut std :: fmt :: Formatter ) -> std :: fmt :: Result {
match self {
ParserError :: UnexpectedToken {
got , got_data : _ , expected , }
=> write ! ( f , "Unexpected token {:?}, expected one of: {:?}" , got , expected ) , ParserError :: LexerError {
inner }
=> write ! ( f , "{}" , inner ) , ParserError :: UnexpectedTokens {
got , expected }
=> {
let errors : Vec < String > = got . iter ( ) . zip ( expected . iter ( ) ) . map ( | ( ( got , _got_data ) , expected ) | {
format ! ( "Unexpected token {:?}, expected one of: {:?}" , got , expected ) }
) . collect ( ) ;
write ! ( f , "Multiple diverging parse stacks reached unexpected ends:\n{}" , errors . join ( "\n" ) ) }
} }
} # [ derive ( Clone ) ] enum RecordedVisit < T > {
Reduce {
rule : ReducedRule }
, Shift {
token : TokenType , data : T }
, }
impl < T : Clone , E : std :: error :: Error , F : FnMut ( ) -> Result < ( TokenType , T ) , E > , V : Visitor < T >> Parser < T , E , F , V > {
pub fn new ( token_function : F , visitor : V ) -> Self {
Parser {
token_function , visitor , }
} fn next_actions ( & self , state : usize , next_token : TokenType , next_data : T ) -> Result < & 'static [ Action ] , ParserError < T , E >> {
match ( state , next_token ) {
@for st
  @for tk
    @use ACTION(tk.0, «get_token_enum_name(tk.1)»)
  @end
  @use ACTION(Symbol::End, EndOfFile)
  ( «st» , _ ) => Err ( ParserError :: UnexpectedToken { got : next_token , got_data : next_data , expected : vec ! [
  @for each(?exp)
    TokenType ::
    @if each(?exp) is Some
      «get_token_enum_name(mapval(Grammar.tokens, Symbol::Terminal{0: each(?exp)!Some}))»
    @else
      EndOfFile
    @end
    ,
  @end
  ] , } ) ,
@end
( _ , _ ) => unreachable ! ( ) }
} fn next_goto ( & self , state : & usize , symbol : & StackSymbol ) -> Option < Goto > {
match ( state , symbol ) {
@for st
  @for tk
    @use GOTO(tk.0, Terminal { token : TokenType :: «get_token_enum_name(tk.1)» })
  @end
  @for np
    @use GOTO(np.0, NonTerminal { non_terminal : NonTerminalType :: «get_non_terminal_enum_name(Grammar, np.0)» })
  @end
  @for an
    @use GOTO(an, NonTerminal { non_terminal : NonTerminalType :: «get_non_terminal_enum_name(Grammar, an)» })
  @end
@end
( _ , _ ) => None , }
} fn get_rule_reduction ( & self , rule : & ReducedRule ) -> ( usize , StackSymbol ) {
match rule {
@let rr = each(?ix)
@for rr
  ReducedRule :: Rule«rr.1» => ( «count(each(rr.0.rhs), not(is(each(rr.0.rhs), Epsilon)))» , StackSymbol :: NonTerminal { non_terminal : NonTerminalType :: «get_non_terminal_enum_name(Grammar, Symbol::NonTerminal{0: rr.0.lhs!Some})» } ) ,
@end
} }
fn do_visit ( & mut self , rule : & ReducedRule ) {
match rule {
@for nt
  @if pos(len(nt.1) - 1)
    @for ru
      ReducedRule :: Rule«mapval(?ix, ru)» => self . visitor . \
      @use ALTNAME()
      ( ) ,
    @end
  @else
    ReducedRule :: Rule«mapval(?ix, at(nt.1, 0))» => self . visitor . \
    @use VISITNAME()
    ( ) ,
  @end
@end
} }
pub fn parse ( & mut self ) -> Result < ( ) , ParserError < T , E >> {
let mut lookahead = std :: collections :: VecDeque :: new ( ) ;
lookahead . push_back ( ( self . token_function ) ( ) . map_err ( | e | ParserError :: LexerError {
inner : e }
) ? ) ;
let root = GraphNode :: root ( ) ;
let stack = root . push ( Some ( «ActionGotoTable.entry_state» ) , None ) ;
let mut stacks = vec ! [ stack ] ;
while ! ( stacks . len ( ) == 1 && stacks [ 0 ] . is_root ( ) ) {
let ( next_token , next_data ) = lookahead . front ( ) . unwrap ( ) ;
let mut reduced = self . apply_reduces ( stacks , next_token , next_data ) . map_err ( combine_errors ) ? ;
let ( next_token , next_data ) = lookahead . pop_front ( ) . unwrap ( ) ;
let new_symbol = StackSymbol :: Terminal {
token : next_token }
; lookahead . push_back ( ( self . token_function ) ( ) . map_err ( | e | ParserError :: LexerError {
inner : e }
) ? ) ;
let accepted = reduced . iter ( ) . position ( | s | s . top ( ) . is_none ( ) ) ;
let mut new_stacks = if let Some ( accepted ) = accepted {
vec ! [ reduced . swap_remove ( accepted ) ] }
else {
let mut new_stacks = Vec :: new ( ) ;
for stack in reduced {
let state = * stack . top ( ) . unwrap ( ) ;
match self . next_goto ( & state , & new_symbol ) {
Some ( Goto :: State {
state_id }
) => {
stack . record ( RecordedVisit :: Shift {
token : next_token , data : next_data . clone ( ) , }
) ;
let new_node = stack . push ( Some ( state_id ) , Some ( new_symbol ) ) ;
new_stacks . push ( new_node ) ;
} Some ( Goto :: Accept ) => unreachable ! ( ) , None => ( ) , }
} new_stacks }
; if new_stacks . len ( ) == 1 {
let stack = new_stacks . pop ( ) . unwrap ( ) ;
let recorded = stack . pop_recorded ( ) ;
for record in recorded {
match record {
RecordedVisit :: Reduce {
rule }
=> self . do_visit ( & rule ) , RecordedVisit :: Shift {
token , data }
=> self . visitor . shift ( token , data ) , }
} stacks = vec ! [ stack ] ;
} else {
stacks = new_stacks ;
} }
Ok ( ( ) ) }
fn apply_reduces ( & mut self , stacks : Vec < GraphNode < usize , StackSymbol , RecordedVisit < T >> > , next_token : & TokenType , next_data : & T ) -> Result < Vec < GraphNode < usize , StackSymbol , RecordedVisit < T >> > , Vec < ParserError < T , E >> > {
let mut to_reduce = stacks ;
let mut reduced = Vec :: new ( ) ;
while ! to_reduce . is_empty ( ) {
let mut errors = Vec :: new ( ) ;
let mut new_to_reduce = Vec :: new ( ) ;
for stack in to_reduce {
let state = * stack . top ( ) . unwrap ( ) ;
match self . next_actions ( state , next_token . clone ( ) , next_data . clone ( ) ) {
Ok ( actions ) => {
for action in actions {
match action {
Action :: Reduce {
rule : reduced_rule }
=> {
self . apply_reduce ( reduced_rule , & stack , next_token , next_data , & mut reduced , & mut new_to_reduce , & mut errors , ) ;
} Action :: Shift => {
reduced . push ( stack . clone_and_fork_record ( ) ) ;
} }
; }
} Err ( e ) => {
errors . push ( e ) ;
} }
} if reduced . is_empty ( ) && new_to_reduce . is_empty ( ) {
return Err ( errors ) ;
} to_reduce = new_to_reduce ;
} Ok ( reduced ) }
fn apply_reduce ( & mut self , reduced_rule : & ReducedRule , stack : & GraphNode < usize , StackSymbol , RecordedVisit < T >> , next_token : & TokenType , next_data : & T , accepted : & mut Vec < GraphNode < StateId , StackSymbol , RecordedVisit < T >> > , new_to_reduce : & mut Vec < GraphNode < usize , StackSymbol , RecordedVisit < T >> > , errors : & mut Vec < ParserError < T , E >> , ) {
let ( to_pop , reduced_symbol ) = self . get_rule_reduction ( & reduced_rule ) ;
let stacks_to_push = stack . unwind_stacks ( to_pop ) ;
for mut stack in stacks_to_push {
stack . record ( RecordedVisit :: Reduce {
rule : reduced_rule . clone ( ) , }
) ;
for _ in 0 .. to_pop {
let ( _edge , new_stack ) = stack . pop ( ) ;
stack = new_stack ;
} let state = * stack . top ( ) . unwrap ( ) ;
match self . next_goto ( & state , & reduced_symbol ) {
Some ( Goto :: State {
state_id }
) => {
let new_node = stack . push ( Some ( state_id ) , Some ( reduced_symbol ) ) ;
new_to_reduce . push ( new_node ) ;
} Some ( Goto :: Accept ) => {
if matches ! ( next_token , TokenType :: EndOfFile ) {
let ( _edge , root ) = stack . pop ( ) ;
accepted . push ( root ) ;
} else {
errors . push ( ParserError :: UnexpectedToken {
got : * next_token , got_data : next_data . clone ( ) , expected : vec ! [ TokenType :: EndOfFile ] , }
) ;
} }
None => ( ) , }
} }
} fn combine_errors < T , E : std :: error :: Error > ( mut errors : Vec < ParserError < T , E >> ) -> ParserError < T , E > {
match errors . len ( ) {
1 => errors . pop ( ) . unwrap ( ) , 0 => unreachable ! ( ) , _ => {
let ( got , expected ) : ( Vec < ( TokenType , T ) > , Vec < Vec < TokenType >> ) = errors . into_iter ( ) . map ( | e | match e {
ParserError :: UnexpectedToken {
got , got_data , expected , }
=> ( ( got , got_data ) , expected ) , _ => unreachable ! ( ) , }
) . unzip ( ) ;
ParserError :: UnexpectedTokens {
got , expected }
} }
} use gss :: GraphNode ;
mod gss {
use std :: {
cell :: {
Ref , RefCell }
, rc :: Rc , }
; pub struct GraphNode < N , E , R > {
inner : Rc < RefCell < GraphNodeInner < N , E , R >> > , recorded : Rc < RefCell < Vec < R >> > , }
impl < N : Clone , E : Clone , R : Clone > GraphNode < N , E , R > {
pub fn clone_and_fork_record ( & self ) -> Self {
GraphNode {
inner : self . inner . clone ( ) , recorded : Rc :: new ( RefCell :: new ( self . recorded . borrow ( ) . clone ( ) ) ) , }
} pub fn unwind_stacks ( & self , depth : usize ) -> Vec < Self > {
if depth == 0 {
return vec ! [ self . clone_and_fork_record ( ) ] ;
} let mut resulting_parents = Vec :: new ( ) ;
let value = self . top ( ) . map ( | r | r . clone ( ) ) ;
for ( edge , neighbor ) in self . neighbors ( ) . iter ( ) {
let new_parents = neighbor . unwind_stacks ( depth - 1 ) ;
for parent in new_parents {
let mut new_node = parent . push ( value . clone ( ) , edge . clone ( ) ) ;
new_node . recorded = self . recorded . clone ( ) ;
resulting_parents . push ( new_node . clone_and_fork_record ( ) ) ;
} }
resulting_parents }
pub fn pop ( self ) -> ( Option < E > , Self ) {
let inner = self . inner . borrow ( ) ;
assert_eq ! ( inner . neighbors . len ( ) , 1 , "Tried to pop from stack branch with more/less than one predecessor" ) ;
let ( edge , predecessor ) = & inner . neighbors [ 0 ] ;
let node = GraphNode {
inner : predecessor . inner . clone ( ) , recorded : self . recorded . clone ( ) , }
; ( edge . clone ( ) , node ) }
} impl < N , E , R > GraphNode < N , E , R > {
pub fn root ( ) -> Self {
GraphNode {
inner : Rc :: new ( RefCell :: new ( GraphNodeInner {
node_value : None , neighbors : vec ! [ ] , }
) ) , recorded : Rc :: new ( RefCell :: new ( Vec :: new ( ) ) ) , }
} fn add_edge ( & mut self , value : Option < E > , predecessor : GraphNode < N , E , R > ) {
self . inner . borrow_mut ( ) . neighbors . push ( ( value , predecessor ) ) ;
} pub fn top ( & self ) -> Option < Ref < N >> {
let opt = Ref :: filter_map ( self . inner . borrow ( ) , | i | i . node_value . as_ref ( ) ) ;
match opt {
Ok ( r ) => Some ( r ) , Err ( _ ) => None , }
} fn neighbors ( & self ) -> Ref < [ ( Option < E > , GraphNode < N , E , R > ) ] > {
Ref :: map ( self . inner . borrow ( ) , | i | i . neighbors . as_slice ( ) ) }
pub fn pop_recorded ( & self ) -> Vec < R > {
return self . recorded . borrow_mut ( ) . split_off ( 0 ) ;
} pub fn record ( & self , record : R ) {
self . recorded . borrow_mut ( ) . push ( record ) ;
} pub fn is_root ( & self ) -> bool {
self . inner . borrow ( ) . node_value . is_none ( ) }
pub fn push ( self , value : Option < N > , edge : Option < E > ) -> GraphNode < N , E , R > {
let mut new_node = self . new_with_same_record ( value ) ;
new_node . add_edge ( edge , self ) ;
new_node }
fn new_with_same_record ( & self , node_value : Option < N > ) -> Self {
GraphNode {
inner : Rc :: new ( RefCell :: new ( GraphNodeInner {
node_value , neighbors : vec ! [ ] , }
) ) , recorded : self . recorded . clone ( ) , }
} }
struct GraphNodeInner < N , E , R > {
node_value : Option < N > , neighbors : Vec < ( Option < E > , GraphNode < N , E , R > ) > , }
}
