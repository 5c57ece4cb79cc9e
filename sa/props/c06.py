"""Grammar expansion. The value-flow summary of the pattern expansion must add, for every pattern form, exactly the productions
of the textbook expansion, on a nonterminal whose number is taken from a counter that is advanced before any nested pattern is
expanded; the symbol table must bind every token and production name to its own number and reject clashing and undeclared names;
the grammar is built from one production per production rule, the declared entry symbol (or a start symbol of its own when the
entry symbol is left-recursive) and exactly the symbol tables."""
from ..term import *
from ..engine import *

RULES = ['optional: N -> inner | eps; zero or more: N -> eps | inner N; one or more: N -> inner | inner N; alternative: N -> branch for each branch',
         'sequence: the symbols of the elements in order, epsilon elements dropped unless nothing else remains',
         'fresh nonterminal: number max + counter + 1, counter advanced before anything nested is expanded, recorded as anonymous',
         'symbol table: token i -> Terminal(i), first production with a name -> NonTerminal(i); duplicates of token names and token/production clashes rejected',
         'entry: the entry symbol, or a fresh start symbol with the single production start -> entry iff some production starts with the entry symbol']
FLOORS = {'obligations': 20}
P = 'lapex_parser::GrammarBuilder::'


def run(ctx):
    s = ctx.summary(P + 'transform_pattern')
    if s is None:
        return
    NT = 'Symbol::NonTerminal{0: ?n}'
    b = None

    def rule(rhs):
        return 'add(self.rules, Rule{lhs: Option::Some{0: ?n}, rhs: %s, rule: Spanned})' % rhs
    pat = 'ProductionPattern'
    common = f'''
        add(self.anonymous_non_terminals, {NT}) if {pat} isnt Sequence|Rule|Epsilon
        store(self.temp_count, self.temp_count + 1) if {pat} isnt Sequence|Rule|Epsilon
        rec(?f, ?s1, {pat}!Optional.inner, Spanned) if {pat} is Optional
        {rule(f'?f(?s1, {pat}!Optional.inner, Spanned)!Ok')} if {pat} is Optional
        rec(?f, ?s1, {pat}!ZeroOrMany.inner, Spanned) if {pat} is ZeroOrMany
        init(?z, ?f(?s1, {pat}!ZeroOrMany.inner, Spanned)!Ok) if {pat} is ZeroOrMany
        add(?z, {NT}) if {pat} is ZeroOrMany
        {rule('?z')} if {pat} is ZeroOrMany
        {rule('[Symbol::Epsilon]')} if {pat} is ZeroOrMany|Optional
        rec(?f, ?s1, {pat}!OneOrMany.inner, Spanned) if {pat} is OneOrMany
        {rule(f'?f(?s1, {pat}!OneOrMany.inner, Spanned)!Ok')} if {pat} is OneOrMany
        init(?o, ?f(?s1, {pat}!OneOrMany.inner, Spanned)!Ok) if {pat} is OneOrMany
        add(?o, {NT}) if {pat} is OneOrMany
        {rule('?o')} if {pat} is OneOrMany
        for each({pat}!Alternative.elements): rec(?f, ?s1, each({pat}!Alternative.elements), Spanned) if {pat} is Alternative
        for each({pat}!Alternative.elements): {rule(f'?f(?s1, each({pat}!Alternative.elements), Spanned)!Ok')} if {pat} is Alternative
        for each({pat}!Sequence.elements): rec(?f, ?s2, each({pat}!Sequence.elements), Spanned) if {pat} is Sequence
        for each({pat}!Sequence.elements), each(?f(?s2, each({pat}!Sequence.elements), Spanned)!Ok): add(?seq, each(?part)) if {pat} is Sequence & each(?part) isnt Epsilon
        add(?seq, Symbol::Epsilon) if {pat} is Sequence & !nonempty(?seq)
        return(Result::Ok{{0: ?seq}}) if {pat} is Sequence
        return(Result::Ok{{0: [{NT}]}}) if {pat} isnt Sequence|Rule|Epsilon
        return(Result::Ok{{0: [mapval(self.symbols, {pat}!Rule.rule_name)]}}) if {pat} is Rule & contains(self.symbols, {pat}!Rule.rule_name)
        return(Result::Err{{0: GrammarError::MissingSymbol{{0: {pat}!Rule.rule_name}}}}) if {pat} is Rule & !contains(self.symbols, {pat}!Rule.rule_name)
        return(Result::Ok{{0: [Symbol::Epsilon]}}) if {pat} is Epsilon
    '''
    def filled(t, v, k):
        # the list is a copy that is then extended, or filled element by element
        old = f'init(?{v}, ?f(?s1, {pat}!{k}.inner, Spanned)!Ok) if'
        assert old in t
        return t.replace(old, f'for each(?f(?s1, {pat}!{k}.inner, Spanned)!Ok): add(?{v}, each(?{v}i)) if')
    texts = [common, filled(common, 'z', 'ZeroOrMany'), filled(common, 'o', 'OneOrMany'), filled(filled(common, 'z', 'ZeroOrMany'), 'o', 'OneOrMany')]
    b = ctx.spec_any(s, 'expand', texts, watch=['#GrammarBuilder.rules', '#GrammarBuilder.anonymous_non_terminals', '#GrammarBuilder.temp_count', 'return', 'seq', 'z', 'o'],
                 assume=['?f(_, _, _) is Ok', 'fits(_, _)'])
    if b is None:
        return
    n, s1 = b['n'], b['s1']
    me = s.params['self']
    ctx.require(n is add(add(fld(me, 'temp_count'), fld(me, 'max_symbol'), 1), cint(1), 1), 'fresh/number',
                'the number of a fresh nonterminal must be one above the largest declared symbol plus the number of fresh ones so far')
    ctx.require(fld(s1, 'temp_count') is add(fld(me, 'temp_count'), cint(1), 1), 'fresh/advance',
                'the counter of fresh nonterminals must be advanced before nested patterns are expanded (two nonterminals would share a number)')
    ctx.require(b['s2'] is me, 'sequence/state', 'the elements of a sequence must be expanded one after the other by the same builder')

    # ---- symbol table
    T = ctx.summary(P + 'from_rule_set')
    tok, prod = 'each(RuleSet.token_rules)', 'each(RuleSet.production_rules)'
    ti, pi = ('Symbol::%s{0: oneof(idx(RuleSet.%s, _), as(_, idx(RuleSet.%s, _)))}' % (k, v, v) for k, v in (('Terminal', 'token_rules'), ('NonTerminal', 'production_rules')))
    noerr = ['fits(_, _)', '!pos(idx(_, _) - 65535)']
    b2 = ctx.spec(T, 'symbols', f'''
        for {tok}: put(?names, {tok}.inner.name, ({ti}, {tok}.span))
        for {tok}: put(?tokens, {ti}, {tok}.inner.name)
        for {prod}: put(?names, {prod}.inner.name, ({pi}, {prod}.span)) if !contains(?names, {prod}.inner.name)
        for {prod}: put(?prods, {pi}, {prod}.inner.name) if !contains(?names, {prod}.inner.name)
        for each(?names): put(?symbols, each(?names).0, each(?names).1.0)
        return(Result::Ok{{0: GrammarBuilder{{temp_count: 0, symbols: ?symbols, max_symbol: best('max', each(values(?names)), ?m), anonymous_non_terminals: ?an, tokens: ?tokens, productions: ?prods, rule_set: RuleSet, rules: ?rules}}}})
    ''', watch=['names', 'tokens', 'prods', 'symbols', 'an', 'rules', 'return'], given_=noerr + [f'!contains(_, {tok}.inner.name)', f'!contains(_, mapval(_, {prod}.inner.name).0)', f'mapval(_, {prod}.inner.name).0 isnt Terminal', 'nonempty(values(_))'])
    if b2 is not None:
        m = b2['m']
        ok = [lf for g, lf in leaves(hoist(m)) if any(at.a[1] != BOOLD and 'NonTerminal' in at.a[1] and g_and(g, test(at.a[0], 'NonTerminal', at.a[1])) is not FALSE for at in atoms_of(g)) or g is TRUE]
        ctx.require(ok and all(lf.op == 'pay' and lf.a[1] == 'NonTerminal' and contains_op(lf, lambda x: x is b2['names'], {}) for lf in ok), 'symbols/max',
                    'the numbering of fresh nonterminals must start above the number of every declared nonterminal')
    dup_t = f'exists({tok}, contains(?names, {tok}.inner.name))'
    known = f'contains(?names, {prod}.inner.name)'
    variants = []
    for clash in (f'contains(?tokens, mapval(?names, {prod}.inner.name).0)', f'is(mapval(?names, {prod}.inner.name).0, Terminal)'):
        dup_p = f'exists({prod}, and({known}, {clash}))'
        variants.append(f'''
            return(Result::Err{{0: GrammarError::ConflictingRules{{rules: _}}}}) if or({dup_t}, {dup_p})
            return(Result::Ok{{0: _}}) if !{dup_t} & !{dup_p}
        ''')
    ctx.spec_any(T, 'clashes', variants, watch=['return', '-stop'], given_=noerr, binds={k: b2[k] for k in ('names', 'tokens')} if b2 else None)


    # ---- assembly
    B = ctx.summary(P + 'build')
    R = 'each(self.rule_set.production_rules)'
    base = [f'contains(_, {R}.inner.name)', '?f(_, _, _) is Ok', f'mapval(_, {R}.inner.name) is NonTerminal', 'fits(_, _)', 'contains(_, _.rule_set.entry_rule.inner.name)',
            'exists(each(_.rule_set.production_rules), eq(_, _))']
    leftrec = 'exists(each(_.rules), and(nonempty(each(_).rhs), eq(_, at(each(_).rhs, 0))))'
    loop = f'''
        for {R}: init(?b, self)
        for {R}: rec(?f, ?b, {R}.inner.pattern, {R})
        for {R}: step(?b, upd(out(?f, 0, ?b, {R}.inner.pattern, {R}), 'rules', ?rules))
        for {R}: init(?rules, out(?f, 0, ?b, {R}.inner.pattern, {R}).rules)
        for {R}: add(?rules, Rule{{lhs: Option::Some{{0: mapval(?b.symbols, {R}.inner.name)!NonTerminal}}, rhs: ?f(?b, {R}.inner.pattern, {R})!Ok, rule: {R}}})
    '''
    ES = 'mapval(?b.symbols, ?b.rule_set.entry_rule.inner.name)'
    ER = 'such(each(?b.rule_set.production_rules), _)'
    SN = 'Symbol::NonTerminal{0: ?b.temp_count + ?b.max_symbol + 1}'
    ctx.spec(B, 'build', loop + f'''
        return(Result::Ok{{0: Grammar{{rules: ?b.rules, anonymous_non_terminals: ?b.anonymous_non_terminals, productions: ?b.productions, tokens: ?b.tokens, entry_symbol: {ES}, entry_rule: Rule{{lhs: Option::None, rhs: [{ES}], rule: {ER}}}}}}})
    ''', watch=['return', 'rules'], given_=base + ['!' + leftrec])
    ctx.spec(B, 'build-leftrec', loop + f'''
        init(?all, ?b.rules)
        add(?all, Rule{{lhs: Option::Some{{0: ?b.temp_count + ?b.max_symbol + 1}}, rhs: [{ES}], rule: {ER}}})
        init(?anon, ?b.anonymous_non_terminals)
        add(?anon, {SN})
        return(Result::Ok{{0: Grammar{{rules: ?all, anonymous_non_terminals: ?anon, productions: ?b.productions, tokens: ?b.tokens, entry_symbol: {SN}, entry_rule: Rule{{lhs: Option::None, rhs: [{SN}], rule: {ER}}}}}}})
    ''', watch=['return', 'rules', 'all', 'anon'], given_=base + [leftrec])
    ctx.spec(B, 'undeclared', f'''
        return(Result::Err{{0: GrammarError::MissingSymbol{{0: _}}}}) if or(not(contains(?b.symbols, ?b.rule_set.entry_rule.inner.name)), not(exists(each(?b.rule_set.production_rules), eq(?b.rule_set.entry_rule.inner.name, each(_).inner.name))))
    ''', given_=base[:4])
