exec(open("/verif/notes/seeds/pre.py").read())
LIB='cc_bindings_from_rs/generate_bindings/lib.rs'
SAME = E2E + r'''
for i in $(seq 16); do gen k --default-features supported,experimental,layout_compat_tuple --crate-header core=core.h --crate-header std=std.h --crate-header alloc=alloc.h >$t/log 2>&1 || { tail -n 5 $t/log; exit 3; }; cat $t/k.h $t/k_cc.rs | md5sum; done | sort -u > $t/sums
[ $(wc -l < $t/sums) = 1 ] || { echo "output differs from run to run"; exit 1; }
'''
seed(ID="s16-fwd-order", PROP="P11",
 NEEDS="a crate whose header needs several forward declarations, and comparing two runs",
 BREAKS="forward declarations are emitted in hash order, so the header differs from run to run",
 EDITS=[(LIB, """        let fwd_decls = fwd_decls
            .into_iter()
            .sorted_by_def(tcx)
            .map(""", """        let fwd_decls = fwd_decls
            .into_iter()
            .map(""")],
 FILES={"demo.sh": SAME, "k.rs": "\n".join(f"pub mod m{i} {{ pub fn f(_: *const S) {{}} pub struct S {{ pub x: i{8<<(i%4)}, pub n: *const super::m{(i+1)%6}::S }} }}" for i in range(6))})
