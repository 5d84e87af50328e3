#!/usr/bin/env python3
"""Writes the harness workspace's manifests (run once; output is committed)."""
import os
here = os.path.dirname(os.path.abspath(__file__))
C = {
 "cref": ("support/cref.rs", False, "", ""),
 "ctor_proc_macros": ("support/ctor_proc_macros.rs", True, 'proc-macro2 = "1"\nquote = "1"\nsyn = { version = "2", features = ["extra-traits", "full"] }\n', ""),
 "ctor": ("support/ctor.rs", False, 'ctor_proc_macros = { path = "../ctor_proc_macros" }\n', ""),
 "decltype_cast": ("support/decltype_cast.rs", False, "", ""),
 "operator": ("support/operator.rs", False, "", ""),
 "oops": ("support/oops.rs", False, "", ""),
 "forward_declare_proc_macros": ("support/forward_declare_proc_macros.rs", True, 'proc-macro2 = "1"\nquote = "1"\nsyn = { version = "2", features = ["extra-traits", "full"] }\n', ""),
 "forward_declare": ("support/forward_declare.rs", False, 'cref = { path = "../cref" }\nforward_declare_proc_macros = { path = "../forward_declare_proc_macros" }\n', '[features]\ndefault = ["unstable"]\nunstable = []\n'),
 "erased_future": ("support/rs_std/erased_future.rs", False, "", ""),
 "dyn_callable_rs": ("support/rs_std/dyn_callable.rs", False, 'bridge_rust = { path = "/repo/support/crubit_bridge_rust", package = "crubit_bridge_rust" }\n', ""),
 "dyn_erased_future": ("support/rs_std/dyn_erased_future.rs", False, 'erased_future = { path = "../erased_future" }\n', ""),
 "dyn_future": ("support/rs_std/dyn_future.rs", False, 'cpp_waker = { path = "../cpp_waker" }\n', ""),
 "lossy_formatter": ("support/rs_std/lossy_formatter.rs", False, "", ""),
 "interner": ("common/interner.rs", False, 'bumpalo = "3"\n', ""),
 "cc_template_impl": ("support/cc_template/cc_template_impl.rs", False, 'anyhow = "1"\nproc-macro2 = "1"\nquote = "1"\nserde_json = "1"\nsyn = { version = "2", features = ["extra-traits", "full"] }\n', ""),
}
for n, (p, pm, deps, extra) in C.items():
    d = os.path.join(here, n); os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "Cargo.toml"), "w").write(f'''[package]
name = "{n}"
version = "0.0.0"
edition = "2024"
autobins = false
autotests = false

[lib]
path = "/repo/{p}"
doctest = false
test = false
{"proc-macro = true" if pm else ""}

[dependencies]
{deps}
{extra}''')
d = os.path.join(here, "cpp_waker"); os.makedirs(d, exist_ok=True)
# stand-in for the generated bindings of support/rs_std/cpp_waker.h (an opaque type; only its address is used)
open(os.path.join(d, "lib.rs"), "w").write("pub mod rs_std { pub struct CppWaker { _opaque: [u8; 0] } }\n")
open(os.path.join(d, "Cargo.toml"), "w").write('[package]\nname = "cpp_waker"\nversion = "0.0.0"\nedition = "2024"\n\n[lib]\npath = "lib.rs"\n')
C["cpp_waker"] = None
open(os.path.join(here, "Cargo.toml"), "w").write('[workspace]\nresolver = "2"\nmembers = [\n' + "".join(f'  "{n}",\n' for n in C) + ']\n')
