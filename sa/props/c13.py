"""Generated Rust GLR parsers. The text of parser.rs is computed as an emission tree by abstract interpretation of the generator and compared with a
specification template: per state and token the list of all actions of the cell (one per entry, each reduction naming the rule of its entry), an error outcome
naming exactly the tokens with an action, per state and symbol the goto of every shift or accept entry, per rule the number of symbols to pop, the symbol to
push and the visitor call. The driver text - forking on every action, unwinding every path of the graph-structured stack, acceptance only at the end of the input,
replaying the recorded visits of one surviving stack - equals the specified one up to names, comments and layout."""
from .c09 import lookups
from .c10 import KINDS, FILLED, MAPS, OPAQUE, variants, names
RULES = ['every shift and every reduction of a cell is emitted in the place of its own state and symbol', 'a rule is popped, pushed and visited as the rule with that number',
         'the error outcome of a state lists the tokens that have an action there', 'rule numbers: position in the list of rules; groups: rules by left-hand side, in order',
         'driver code equals the specified text up to renaming of locals, comments and layout']
FLOORS = {'emitted_values': 60, 'emission_loops': 20}
F = '<lapex_rust_codegen::RustGLRParserCodeGen as lapex_parser::LRParserCodeGen>::generate_code'
# a cell with one entry may be treated apart or not
SPLIT = '''  @if contains(E, (st, SYM)) & pos(len(mapval(E, (st, SYM))) - 1)
    @for each(mapval(E, (st, SYM)))
      @use ARM(each(mapval(E, (st, SYM))), TEXT)
    @end
  @elif contains(E, (st, SYM))
    @use ARM(at(mapval(E, (st, SYM)), 0), TEXT)
  @end
'''
PLAIN = '''  @if contains(E, (st, SYM))
    @for each(mapval(E, (st, SYM)))
      @use ARM(each(mapval(E, (st, SYM))), TEXT)
    @end
  @end
'''
EXPECTED = '''
    for each(range(0, ActionGotoTable.state_count)), each(keys(Grammar.tokens)), each(mapval(ActionGotoTable.entries, (each(range(0, ActionGotoTable.state_count)), each(Grammar.tokens).0))): add(?exp, Option::Some{0: each(Grammar.tokens).0!Terminal}) if contains(ActionGotoTable.entries, (each(range(0, ActionGotoTable.state_count)), each(Grammar.tokens).0)) & each(mapval(ActionGotoTable.entries, (each(range(0, ActionGotoTable.state_count)), each(Grammar.tokens).0))) is Shift|Reduce
    for each(range(0, ActionGotoTable.state_count)), each(mapval(ActionGotoTable.entries, (each(range(0, ActionGotoTable.state_count)), Symbol::End))): add(?exp, Option::None) if contains(ActionGotoTable.entries, (each(range(0, ActionGotoTable.state_count)), Symbol::End)) & each(mapval(ActionGotoTable.entries, (each(range(0, ActionGotoTable.state_count)), Symbol::End))) is Shift|Reduce
'''


def run(ctx):
    em = ctx.emission(F, OPAQUE)
    assume = KINDS + FILLED
    t = ctx.tpl('rust_glr_parser.rs')[0]
    assert SPLIT in t
    b = ctx.emits(em, 'parser.rs', [v for t2 in (t, t.replace(SPLIT, PLAIN)) for v in variants(t2)], 'parser.rs', assume=assume)
    if b is not None:
        ctx.spec(em.summ, 'numbering', MAPS, watch=['by', 'ix'], assume=assume, binds={k: b[k] for k in ('by', 'ix') if k in b}, ignore=[('by', 'putnew')])
        if 'exp' in b:
            ctx.spec_any(em.summ, 'expected', [EXPECTED, EXPECTED.replace('keys(Grammar.tokens)', 'Grammar.tokens')], watch=['exp'], assume=assume, binds={'exp': b['exp']})
    names(ctx)
    lookups(ctx)
