"""helpers for demonstrations: build the command line tool, generate code, compile and run it (everything in a scratch directory)"""
import atexit
import os
import re
import shutil
import subprocess
import sys
import tempfile

REPO = os.getcwd()
W = tempfile.mkdtemp(prefix='lapexdemo')
atexit.register(lambda: shutil.rmtree(W, ignore_errors=True))
ENV = dict(os.environ)
ENV['PATH'] = '/usr/local/bin:/root/.cargo/bin:' + ENV.get('PATH', '/usr/bin:/bin')
ENV.setdefault('HOME', '/root')
ENV.update(RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=os.path.join(REPO, 'target'),
           CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', RUST_BACKTRACE='0')


def sh(cmd, inp=None, cwd=None, timeout=250):
    r = subprocess.run(cmd, input=inp, cwd=cwd or W, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return r.returncode, r.stdout.decode('utf-8', 'replace'), r.stderr.decode('utf-8', 'replace')


_bin = None


def cli():
    global _bin
    if _bin is None:
        rc, o, e = sh(['cargo', 'build', '-q', '--offline', '--locked', '-p', 'lapex-cli'], cwd=REPO)
        if rc:
            print(e[-2000:])
            sys.exit('cannot build lapex-cli')
        _bin = os.path.join(REPO, 'target', 'debug', 'lapex-cli')
    return _bin


_n = [0]


def fresh(name='d'):
    _n[0] += 1
    d = os.path.join(W, '%s%d' % (name, _n[0]))
    os.makedirs(d)
    return d


def gen(lang, algo, grammar, extra=()):
    d = fresh()
    g = os.path.join(d, 'g.lapex')
    with open(g, 'w', encoding='utf-8') as f:
        f.write(grammar)
    o = os.path.join(d, 'out')
    os.makedirs(o)
    rc, so, se = sh([cli(), 'generate', g, '-l', lang, '-a', algo, '--target', o] + list(extra))
    return o, rc, se


def crate(src, deps):
    """a scratch crate with path dependencies on the repository's crates, run with the repository's lock file; returns (rc, out, err)"""
    d = fresh('crate')
    os.makedirs(os.path.join(d, 'src'))
    with open(os.path.join(d, 'src', 'main.rs'), 'w') as f:
        f.write(src)
    with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
        f.write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n')
        for n in deps:
            f.write('%s = %s\n' % (n, deps[n]) if isinstance(deps, dict) else '%s = { path = "%s/%s" }\n' % (n, REPO, n))
    shutil.copy(os.path.join(REPO, 'Cargo.lock'), os.path.join(d, 'Cargo.lock'))
    env = ENV['CARGO_TARGET_DIR']
    ENV['CARGO_TARGET_DIR'] = os.path.join(d, 'target')
    try:
        return sh(['cargo', 'run', '-q', '--offline'], cwd=d)
    finally:
        ENV['CARGO_TARGET_DIR'] = env


LEXMAIN = '''
#[allow(dead_code)] mod tokens; #[allow(dead_code)] mod lexer;
use std::io::Read;
fn main() { let mut s = String::new(); std::io::stdin().read_to_string(&mut s).unwrap(); let mut l = lexer::Lexer::new(&s);
 for _ in 0..200 { match l.next() { Ok(tokens::TokenType::EndOfFile) => { println!("EOF"); return; } Ok(t) => println!("{:?} {:?} {:?}", t, l.slice(), l.span()), Err(_) => { println!("ERR"); return; } } } println!("LOOP"); }
'''


def rustc(d, main, name):
    with open(os.path.join(d, name + '.rs'), 'w') as f:
        f.write(main)
    exe = os.path.join(d, name + '.exe')
    rc, o, e = sh(['rustc', '--edition', '2021', '-A', 'warnings', '-o', exe, name + '.rs'], cwd=d)
    return (exe if rc == 0 else None), e


def lex_rust(d, text):
    """[(token, text)] ending in 'EOF', 'ERR', 'LOOP' or 'CRASH'"""
    exe = os.path.join(d, 'lexmain.exe')
    if not os.path.exists(exe):
        exe, e = rustc(d, LEXMAIN, 'lexmain')
        if exe is None:
            return ['COMPILE ' + e[:600]]
    rc, o, e = sh([exe], inp=text.encode('utf-8'))
    out = []
    for l in o.splitlines():
        m = re.match(r'Tk(\w+) "(.*)" ', l)
        out.append((m.group(1), m.group(2)) if m else l)
    if rc:
        out.append('CRASH')
    return out


CPPLEX = '''
#include "lexer.h"
#include <sstream>
#include <iostream>
#include <iterator>
int main() { std::string s((std::istreambuf_iterator<char>(std::cin)), std::istreambuf_iterator<char>()); std::istringstream in(s); lexer::Lexer l(in);
 for (int i = 0; i < 200; i++) { auto t = l.next(); std::cout << lexer::get_token_name(t) << " " << l.start() << " " << l.end() << std::endl; if (t == lexer::TokenType::TK_EOF || t == lexer::TokenType::TK_ERR) return 0; } std::cout << "LOOP" << std::endl; }
'''


def lex_cpp(d, text):
    """[(name, start, end)]"""
    exe = os.path.join(d, 'lexmain.cexe')
    if not os.path.exists(exe):
        with open(os.path.join(d, 'lexmain.cpp'), 'w') as f:
            f.write(CPPLEX)
        rc, o, e = sh(['g++', '-std=c++17', '-w', '-o', exe, 'lexmain.cpp', 'lexer.cpp', 'tokens.cpp'], cwd=d)
        if rc:
            return ['COMPILE ' + e[:600]]
    rc, o, e = sh([exe], inp=text.encode('utf-8'))
    out = [tuple(l.split(' ')) for l in o.splitlines()]
    if rc:
        out.append('CRASH')
    return out


def rust_visitor(d, ty='String', toks='{:?}'):
    src = open(os.path.join(d, 'parser.rs')).read()
    tr = src[:src.index('pub struct')]
    fns = re.findall(r'fn (\w+) \(& mut self\)', tr)
    imp = 'struct V; impl parser::Visitor<%s> for V { fn shift(&mut self, t: tokens::TokenType, _d: %s) { println!("shift {:?}", t); }' % (ty, ty)
    for f in dict.fromkeys(fns):
        imp += ' fn %s(&mut self) { println!("%s"); }' % (f, f)
    return imp + ' }\n'


def parse_rust(d, text, glr=False):
    """trace of visitor calls, then OK or ERR (or COMPILE/CRASH)"""
    name = 'parsemain'
    exe = os.path.join(d, name + '.exe')
    if not os.path.exists(exe):
        m = '#[allow(dead_code)] mod tokens; #[allow(dead_code)] mod lexer; #[allow(dead_code)] mod parser;\nuse std::io::Read;\n' + rust_visitor(d)
        m += '#[derive(Debug)] struct E; impl std::error::Error for E {} impl std::fmt::Display for E { fn fmt(&self, _f: &mut std::fmt::Formatter<\'_>) -> std::fmt::Result { Ok(()) } }\n'
        tk = '{ let t = l.next().expect("lex"); (t, l.slice().to_string()) }'
        if glr:
            tk = 'Ok::<(tokens::TokenType, String), E>(%s)' % tk
        m += 'fn main() { let mut s = String::new(); std::io::stdin().read_to_string(&mut s).unwrap(); let mut l = lexer::Lexer::new(&s); let mut p = parser::Parser::new(|| %s, V);\n' % tk
        m += 'match p.parse() { Ok(()) => println!("OK"), Err(_) => println!("ERR") } }\n'
        exe, e = rustc(d, m, name)
        if exe is None:
            return ['COMPILE ' + '\n'.join(x for x in e.splitlines() if x.startswith('error'))[:600]]
    rc, o, e = sh([exe], inp=text.encode('utf-8'), timeout=20)
    return o.splitlines() + (['CRASH'] if rc else [])


def parse_cpp(d, text):
    exe = os.path.join(d, 'pm.cexe')
    if not os.path.exists(exe):
        vis = open(os.path.join(d, 'visitor.h')).read()
        m = '#include "lexer.h"\n#include "parser_impl.h"\n#include <sstream>\n#include <iostream>\n#include <iterator>\nstruct V : parser::Visitor<int> {\n'
        for f, a in re.findall(r'virtual void (\w+)\(([^)]*)\) = 0', vis):
            if a.strip():
                m += 'void %s(lexer::TokenType t, int) override { std::cout << "%s " << lexer::get_token_name(t) << std::endl; }\n' % (f, f)
            else:
                m += 'void %s() override { std::cout << "%s" << std::endl; }\n' % (f, f)
        m += '};\nint main() { std::string s((std::istreambuf_iterator<char>(std::cin)), std::istreambuf_iterator<char>()); std::istringstream in(s); lexer::Lexer l(in); V v;\n'
        m += 'parser::Parser<int> p([&]() { return parser::Token<int>(l.next(), 0); }, v);\ntry { p.parse(); std::cout << "OK" << std::endl; } catch (const std::exception &e) { std::cout << "ERR" << std::endl; } }\n'
        with open(os.path.join(d, 'pm.cpp'), 'w') as f:
            f.write(m)
        rc, o, e = sh(['g++', '-std=c++17', '-w', '-o', exe, 'pm.cpp', 'lexer.cpp', 'tokens.cpp'] + (['parser.cpp'] if os.path.exists(os.path.join(d, 'parser.cpp')) else []), cwd=d)
        if rc:
            return ['COMPILE ' + e[:900]]
    rc, o, e = sh([exe], inp=text.encode('utf-8'), timeout=20)
    return o.splitlines() + (['CRASH'] if rc else [])


_fail = []


def expect(what, got, want):
    if got != want:
        print('FAIL %s\n  got  %s\n  want %s' % (what, got, want))
        _fail.append(what)


def done():
    if _fail:
        sys.exit(1)
    print('ok')
