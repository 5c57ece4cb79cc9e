"""Generated lexers. The text every lexer generator writes is computed as an emission tree (text, interpolated values, loops, conditions) by abstract
interpretation of the generator, and compared with a specification template: one character-class case per alphabet class carrying its bounds and index,
one case per automaton state and outgoing edge (class 0 excepted) going to the edge's target, the accepting outcome naming the accepted rule, the end-of-file
outcome exactly at the start state, and a token kind for every token rule."""
RULES = ['every character class is emitted with its own bounds and its own index', 'every state and every edge of the automaton is emitted, source, class and target in place',
         'accepting states return the rule they accept, others fail', 'every token rule has a token kind', 'driver code equals the specified text up to renaming of locals, comments and layout']
FLOORS = {'emitted_values': 25, 'emission_loops': 9}
R = '<lapex_rust_codegen::RustLexerCodeGen as lapex_lexer::LexerCodeGen>::'
C = '<lapex_cpp_codegen::CppLexerCodeGen as lapex_lexer::LexerCodeGen>::'


def run(ctx):
    for fn, f, t in ((R + 'generate_lexer', 'lexer.rs', 'rust_lexer.rs'), (R + 'generate_tokens', 'tokens.rs', 'rust_tokens.rs'),
                     (C + 'generate_lexer', 'lexer.cpp', 'cpp_lexer.cpp'), (C + 'generate_lexer', 'lexer.h', 'cpp_lexer.h'),
                     (C + 'generate_tokens', 'tokens.cpp', 'cpp_tokens.cpp'), (C + 'generate_tokens', 'tokens.h', 'cpp_tokens.h')):
        em = ctx.emission(fn)
        ctx.emits(em, f, ctx.tpl(t), fn.split(' ')[0].split('::')[-1] + '/' + f)
