PROPERTY = "C21"
NEEDS = "a spec file given with -f from another directory than the source, with an output field"
BREAKS = "the image is written next to the spec file, not relative to the source directory"
EDITS = [("xdvdfs-cli/src/cmd_build_image.rs",
"""        if let Some(output) = output_path {
            source_path.join(output)
        } else {
""",
"""        if let Some(output) = output_path {
            let base = spec_path.parent().filter(|_| image_spec.is_some());
            base.unwrap_or(&source_path).join(output)
        } else {
""")]
DEMO = """
from xd import *
d = scratch()
mktree(d + "/s", {"a": b"1"}); mktree(d + "/specs", {"x.toml": b'[metadata]\\noutput = "out.iso"\\n[map_rules]\\n"a" = "/b"\\n'})
p = run("build-image", "-f", d + "/specs/x.toml", d + "/s")
need(p.returncode == 0, p.err)
need(not os.path.exists(d + "/specs/out.iso"), "written next to the spec file")
need(decode(d + "/s/out.iso") == {"b": b"1"}, "image differs")
"""
