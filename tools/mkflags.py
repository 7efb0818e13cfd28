#!/usr/bin/env python3
"""Writes harness/src/flagtab.rs: one row per boolean accessor backed by a flag word. Run by hand on the
reviewed tree; the rows (word and bit of each flag) were then compared with the DXF reference and are the
committed reference of check C25."""
import re,sys,glob,os
gen=max(glob.glob('/verif/target/debug/build/dxf-*/out/generated'),key=os.path.getmtime)
rows=[]
def scan(path,mod,word=None):
    ty=None; name=None
    for l in open(path):
        m=re.match(r'impl (\w+)\b',l)
        if m: ty=m.group(1)
        m=re.match(r'\s*pub fn (\w+)\(&self\) -> bool',l)
        if m: name=m.group(1); continue
        if name:
            m=re.search(r'self\.([\w.]+) & (\d+) != 0',l)
            if m: rows.append((mod,ty,name,m.group(1),int(m.group(2))))
            else:
                m=re.search(r'self\.flag\((\d+)\)',l)
                if m: rows.append((mod,ty,name,word,int(m.group(1))))
                else: print('unparsed',mod,ty,name,l.strip(),file=sys.stderr)
            name=None
scan(f'{gen}/entities.rs','Entity'); scan(f'{gen}/objects.rs','Object'); scan(f'{gen}/tables.rs','Table'); scan(f'{gen}/header.rs','Header')
scan('/repo/src/block.rs','Block','flags'); scan('/repo/src/class.rs','Class','proxy_capability_flags')
o=open('/verif/harness/src/flagtab.rs','w')
o.write('''//! The flag accessors: word and bit value of each as the DXF reference has them (see tools/mkflags.py).
use crate::c_flag::{ap, Flag};
use crate::schema::Item;
use dxf::entities::*;
use dxf::objects::*;
use dxf::{Block, Class, Header};

pub fn flags() -> Vec<Flag> {
    vec![
''')
for mod,ty,name,word,mask in rows:
    item=f'Item::{mod}("{ty}")' if mod in('Entity','Object','Table') else f'Item::{mod}'
    o.write(f'        Flag {{ item: {item}, word: "{word}", name: "{name}", mask: {mask}, apply: |v, b| ap(v, b, {ty}::{name}, {ty}::set_{name}) }},\n')
o.write('    ]\n}\n')
print(len(rows))
