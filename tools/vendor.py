#!/usr/bin/env python3
"""Recreates /verif/vendor from the crates in the local cargo registry cache.
Run by hand once; the result is committed so that checks never depend on ~/.cargo."""
import os, sys, tarfile, json, hashlib, shutil, glob
CACHE = os.path.expanduser('~/.cargo/registry/cache')
OLD = CACHE + '/index.crates.io-6f17d22bba15001f'
NEW = CACHE + '/index.crates.io-1949cf8c6b5b557f'
V = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vendor')
LIST = """
ahash-0.8.11 allocator-api2-0.2.18 array-concat-0.5.3 array-util-1.0.2 arrayvec-0.7.6 autocfg-1.3.0
bit-set-0.5.3 bit-vec-0.6.3 bitfield-0.16.1 bitflags-2.5.0 bytecheck-0.8.0-pre6 bytecheck_derive-0.8.0-pre6
cfg-if-1.0.0 fastrand-2.1.0 fnv-1.0.7 getrandom-0.2.14 hashbrown-0.14.5 lazy_static-1.4.0 libc-0.2.153 libm-0.2.8
log-0.4.22 num-traits-0.2.19 once_cell-1.19.0 ppv-lite86-0.2.17 proptest-1.5.0 ptr_meta-0.3.0-pre1 ptr_meta_derive-0.3.0-pre1
quick-error-1.2.3 rancor-0.1.0-pre8 rand-0.8.5 rand_chacha-0.3.1 rand_core-0.6.4 rand_xorshift-0.3.0 regex-syntax-0.8.3
rend-0.5.0-pre6 rkyv-0.8.0-alpha.1 rkyv_derive-0.8.0-alpha.1 simdutf8-0.1.4
unarray-0.1.4 version_check-0.9.4 vec-entries-1.0.0 zerocopy-0.7.34 zerocopy-derive-0.7.34
rustix-0.38.34 linux-raw-sys-0.4.14 errno-0.3.9 tempfile-3.10.1 rusty-fork-0.3.0 wait-timeout-0.2.0
tinyvec-1.6.0 tinyvec_macros-0.1.1 bitvec-1.0.1 funty-2.0.0 radium-0.7.0 tap-1.0.1 wyz-0.5.1
proc-macro2-1.0.106 quote-1.0.45 syn-2.0.117 unicode-ident-1.0.24
serde-1.0.228 serde_core-1.0.228 serde_derive-1.0.228 serde_json-1.0.150 itoa-1.0.17 memchr-2.7.6 zmij-1.0.21
anyhow-1.0.98 im-15.1.0 bitmaps-2.1.0 sized-chunks-0.6.5 typenum-1.18.0 rand_xoshiro-0.6.0
itertools-0.13.0 either-1.15.0 hex-0.4.3 thiserror-1.0.69 thiserror-impl-1.0.69 bumpalo-3.20.3
sha2-0.10.9 digest-0.10.7 block-buffer-0.10.4 generic-array-0.14.7 crypto-common-0.1.6 cpufeatures-0.2.17
rayon-1.12.0 rayon-core-1.13.0 crossbeam-deque-0.8.6 crossbeam-epoch-0.9.18 crossbeam-utils-0.8.21
compiler_builtins-0.1.109 rustc-demangle-0.1.23 hashbrown-0.14.3 allocator-api2-0.2.16 unicode-width-0.1.11 getopts-0.2.21
wasi-0.11.0+wasi-snapshot-preview1 windows-sys-0.52.0 windows-targets-0.52.5
""".split()
def main():
    os.makedirs(V, exist_ok=True)
    if len(sys.argv)>1: only=sys.argv[1:]
    else: only=LIST; shutil.rmtree(V, ignore_errors=True); os.makedirs(V)
    for c in only:
        p = None
        for d in (OLD, NEW):
            if os.path.exists(f'{d}/{c}.crate'): p = f'{d}/{c}.crate'; break
        if not p: print('missing', c); continue
        h = hashlib.sha256(open(p,'rb').read()).hexdigest()
        with tarfile.open(p) as t: t.extractall(V, filter='data')
        root = f'{V}/{c}'
        if c.startswith('windows-'):   # never built here: keep the manifest only
            for e in os.listdir(root):
                if e in ('Cargo.toml',): continue
                q = f'{root}/{e}'
                shutil.rmtree(q) if os.path.isdir(q) else os.remove(q)
            os.makedirs(f'{root}/src'); open(f'{root}/src/lib.rs','w').close()
            m = open(f'{root}/Cargo.toml').read()
            if c.startswith('windows-targets'):
                m = m.split('[target.')[0]
                open(f'{root}/Cargo.toml','w').write(m)
        for junk in ('tests','benches','examples','ci','.github','docs','.git','test','target'):
            q=f'{root}/{junk}'
            if os.path.isdir(q): shutil.rmtree(q)
        for e in ('Cargo.toml.orig','Cargo.lock','.gitignore','.cargo_vcs_info.json'):
            if os.path.exists(f'{root}/{e}'): os.remove(f'{root}/{e}')
        if c.startswith('rayon'):   # builds with the pinned 1.79 nightly
            m=open(f'{root}/Cargo.toml').read()
            open(f'{root}/Cargo.toml','w').write('\n'.join(l for l in m.split('\n') if not l.startswith('rust-version')))
        if c.startswith('rayon-1'):
            for f in ('slice/sort.rs','slice/mod.rs'):
                m=open(f'{root}/src/{f}').read().split('\n')
                i=next(k for k,l in enumerate(m) if l.startswith('use '))
                m.insert(i,'use std::mem::size_of;'); open(f'{root}/src/{f}','w').write('\n'.join(m))
            m=open(f'{root}/src/lib.rs').read()
            i=m.index('#![')
            open(f'{root}/src/lib.rs','w').write(m[:i]+'#![feature(binary_heap_as_slice, inline_const)]\n'+m[i:])
        json.dump({'files':{}, 'package':h}, open(f'{root}/.cargo-checksum.json','w'))
main()
