"""Alphabet partition. The value-flow summary of the border collector must add every character constant of every pattern form and recurse into
every nested pattern; the class builder must start from all token rules plus the smallest and largest character and emit, walking the ordered border set,
one singleton class per border and one gap class [previous border + 1, border - 1] exactly when that gap is non-empty; lookup must return the index of the containing class."""
RULES = ['every variant of the pattern type contributes its characters or recurses into all its sub-patterns',
         'classes: singleton per border, gap class iff gap > 0, in ascending border order, nothing else',
         'lookup: index of the class whose bounds include the character, otherwise none']
FLOORS = {'obligations': 18}

COLLECT = '''
add(BTreeSet, Pattern!Char.chars!Range.0) if Pattern is Char & Pattern!Char.chars is Range
add(BTreeSet, Pattern!Char.chars!Range.1) if Pattern is Char & Pattern!Char.chars is Range
add(BTreeSet, Pattern!Char.chars!Single) if Pattern is Char & Pattern!Char.chars is Single
for each(Pattern!CharSet.chars): add(BTreeSet, each(Pattern!CharSet.chars)!Range.0) if Pattern is CharSet & each(Pattern!CharSet.chars) is Range
for each(Pattern!CharSet.chars): add(BTreeSet, each(Pattern!CharSet.chars)!Range.1) if Pattern is CharSet & each(Pattern!CharSet.chars) is Range
for each(Pattern!CharSet.chars): add(BTreeSet, each(Pattern!CharSet.chars)!Single) if Pattern is CharSet & each(Pattern!CharSet.chars) is Single
rec(?self, ~ BTreeSet, Pattern!Repetition.inner) if Pattern is Repetition
for each(Pattern!Alternative.elements): rec(?self, ~ BTreeSet, each(Pattern!Alternative.elements)) if Pattern is Alternative
for each(Pattern!Sequence.elements): rec(?self, ~ BTreeSet, each(Pattern!Sequence.elements)) if Pattern is Sequence
'''

HEAD = '''
for each(VecSpanned): rec(?collect, ~ ?set, each(VecSpanned).inner.pattern!Pattern.pattern) if each(VecSpanned).inner.pattern is Pattern
add(?set, char(0x0))
add(?set, char(0x10ffff))
'''
LIT = ['''
for each(VecSpanned), each(each(VecSpanned).inner.pattern!Literal.characters): add(?els, Pattern::Char{chars: Characters::Single{0: each(each(VecSpanned).inner.pattern!Literal.characters)}}) if each(VecSpanned).inner.pattern is Literal
for each(VecSpanned): rec(?collect, ~ ?set, Pattern::Sequence{elements: ?els}) if each(VecSpanned).inner.pattern is Literal
''', '''
for each(VecSpanned), each(each(VecSpanned).inner.pattern!Literal.characters): add(?set, each(each(VecSpanned).inner.pattern!Literal.characters)) if each(VecSpanned).inner.pattern is Literal
''']
BUILD = ['''
add(?ranges, RangeInclusive::new(?first, ?first))
for each(skip(?set, 1)): add(?ranges, RangeInclusive::new(?prev + 1, each(skip(?set, 1)) - 1)) if pos(each(skip(?set, 1)) - ?prev - 1)
for each(skip(?set, 1)): add(?ranges, RangeInclusive::new(each(skip(?set, 1)), each(skip(?set, 1))))
init(?prev, ?first)
step(?prev, each(skip(?set, 1)))
return(Alphabet{ranges: ?ranges})
''', '''
for each(?set): add(?ranges, RangeInclusive::new(?prev!Some + 1, each(?set) - 1)) if ?prev is Some & pos(each(?set) - ?prev!Some - 1)
for each(?set): add(?ranges, RangeInclusive::new(each(?set), each(?set)))
init(?prev, Option::None)
step(?prev, Option::Some{0: each(?set)})
return(Alphabet{ranges: ?ranges})
''', '''
add(?ranges, RangeInclusive::new(?first, ?first))
for each(windows(?set, 2)): add(?ranges, RangeInclusive::new(at(each(windows(?set, 2)), 0) + 1, at(each(windows(?set, 2)), 1) - 1)) if !pos(at(each(windows(?set, 2)), 0) - at(each(windows(?set, 2)), 1) + 2)
for each(windows(?set, 2)): add(?ranges, RangeInclusive::new(at(each(windows(?set, 2)), 1), at(each(windows(?set, 2)), 1)))
return(Alphabet{ranges: ?ranges})
''']


def run(ctx):
    A = ctx.summary('lapex_lexer::generate_alphabet')
    if A is None:
        return
    b = ctx.spec_any(A, 'classes', [HEAD + l + x for x in BUILD for l in LIT], watch=['set', 'ranges', 'return'])
    if b is None:
        return
    if b.get('first') is not None:
        f = b['first']
        ctx.require(f.op in ('at', 'first') and f.a[0] is b['set'] and (f.op == 'first' or f.a[1].op == 'c' and f.a[1].a[1] == 0), 'classes/first',
                    'the first class does not start at the lowest border')
    ctx.require(A.eng.objinfo.get(b['set']) in ('BTreeSet',), 'classes/order', 'the borders are not kept in an ordered set: %s' % A.eng.objinfo.get(b['set']))
    C = ctx.summary(b['collect'])
    b2 = ctx.spec(C, 'borders', COLLECT, watch=['#BTreeSet'])
    if b2:
        ctx.require(b2['self'] == b['collect'], 'borders/self', 'sub-patterns must be visited by the same collector')
    F = ctx.summary('lapex_lexer::Alphabet::find_range')
    inside = 'and(pos(u32 - start(each(self.ranges)) + 1), not(pos(u32 - end(each(self.ranges)))))'
    ctx.spec_any(F, 'lookup', [f'''
        return(Option::Some{{0: such(idx(self.ranges, _), _)}}) if exists(each(self.ranges), {inside})
        return(Option::None) if !exists(each(self.ranges), {inside})
    ''', '''
        return(Option::Some{0: bsearch(self.ranges, u32, start(each(self.ranges)))!Ok}) if bsearch(_, _, _) is Ok
        return(Option::Some{0: bsearch(_, _, _)!Err - 1}) if bsearch(_, _, _) is Err & !pos(u32 - end(at(self.ranges, bsearch(_, _, _)!Err - 1)))
        return(Option::None) if bsearch(_, _, _) is Err & pos(u32 - end(at(self.ranges, bsearch(_, _, _)!Err - 1)))
    ''', '''
        return(Option::Some{0: bsearch(self.ranges, u32, start(each(self.ranges)))!Ok}) if bsearch(_, _, _) is Ok
        return(Option::Some{0: bsearch(_, _, _)!Err - 1}) if bsearch(_, _, _) is Err & !pos(u32 - end(at(self.ranges, bsearch(_, _, _)!Err - 1)))
        return(Option::None) if bsearch(_, _, _) is Err & pos(u32 - end(at(self.ranges, bsearch(_, _, _)!Err - 1)))
    '''], watch=['return'], assume=['pos(u32 - start(at(self.ranges, bsearch(_, _, _)!Ok)) + 1)', '!pos(u32 - end(at(self.ranges, bsearch(_, _, _)!Ok)))', 'pos(u32 - start(at(self.ranges, bsearch(_, _, _)!Err - 1)) + 1)', 'pos(bsearch(_, _, _)!Err)', 'pos(len(self.ranges))'])
