#!/usr/bin/env python3
"""Rewrites harness/src/props/mod.rs from the files beside it."""
import glob, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/harness/src/props'
ids = sorted(os.path.basename(p)[:-3] for p in glob.glob(D + '/c[0-9]*.rs'))
s = ''.join(f'pub mod {i};\n' for i in ids) + '\nuse crate::mon::Prop;\n\npub const ALL: &[&Prop] = &[\n' + ''.join(f'    &{i}::PROP,\n' for i in ids) + '];\n'
open(D + '/mod.rs', 'w').write(s)
