PROPERTY = "C12"
NEEDS = "extract-xiso -r -D on an image whose rewriting fails (damaged table, full disk)"
BREAKS = "the set-aside original is deleted although no complete replacement exists"
EDITS = [("xdvdfs-cli/src/exiso_compat.rs",
"""        cmd_pack_path(&renamed_input_path, &dest_path).await?;

        if delete {
            std::fs::remove_file(&renamed_input_path)?;
        }
""",
"""        let result = cmd_pack_path(&renamed_input_path, &dest_path).await;

        if delete {
            std::fs::remove_file(&renamed_input_path)?;
        }
        result?;
""")]
DEMO = """
from xd import *
d = scratch()
b = entry(0, 0, 40, 5 * S, 32, b"f")
build(d + "/i.iso", {33: b}, {40: b"hello"}, (33, len(b)), 43)   # data truncated
want = open(d + "/i.iso", "rb").read()
p = run("extract-xiso", "-D", "-r", d + "/i.iso")
need(p.returncode != 0, "rewriting a truncated image succeeded")
left = [open(os.path.join(d, n), "rb").read() for n in os.listdir(d)]
need(want in left, "the original is gone")
"""
