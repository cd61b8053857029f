#!/usr/bin/env python3
"""Generates the harness crate root from the real /repo/src/cli.rs.

Only two things change: `mod x;` gets the path of the real file, and `fn main` is renamed so that the
harness can provide its own entry point (and still run the real one)."""
import re, sys, os
repo, out, verif = sys.argv[1], sys.argv[2], sys.argv[3]
src = open(os.path.join(repo, 'src/cli.rs'), encoding='utf-8').read()
def fix(m):
    name = m.group(3)
    for cand in (f'src/{name}.rs', f'src/{name}/mod.rs'):
        if os.path.exists(os.path.join(repo, cand)):
            return f'{m.group(1)}#[path = "{os.path.join(repo, cand)}"]\n{m.group(1)}{m.group(2) or ""}mod {name};'
    return m.group(0)
src = re.sub(r'(?m)^([ \t]*)(pub(?:\([a-z]+\))? )?mod (\w+);', fix, src)
src, n = re.subn(r'(?m)^(\s*)fn main\(\)', r'\1pub(crate) fn cli_main()', src)
head = '#![allow(dead_code, unused_imports, unused_macros)]\n'
tail = f'\n#[path = "{verif}/harness/src/mod.rs"]\nmod harness;\nfn main() {{ harness::run() }}\n'
if n != 1:
    tail = tail.replace('fn main()', 'pub(crate) fn cli_main() {}\nfn main()')
text = head + src + tail
os.makedirs(os.path.dirname(out), exist_ok=True)
if not os.path.exists(out) or open(out, encoding='utf-8').read() != text:
    open(out, 'w', encoding='utf-8').write(text)
