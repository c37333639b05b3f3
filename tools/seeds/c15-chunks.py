PROPERTY = "C15"
NEEDS = "a file whose size is an exact multiple of 1 MiB, changed in its last MiB"
BREAKS = "the checksum does not cover the last MiB"
EDITS = [("xdvdfs-core/src/checksum.rs",
"""            let data = file.node.dirent.read_data_all(dev).await?;
            hasher.update(data);
""",
"""            // Hash in parts, to bound the memory needed for large files
            const PART: u64 = 1024 * 1024;
            let size = file.node.dirent.data.size as u64;
            let parts = size.saturating_sub(1) / PART;
            for i in 0..parts {
                let data = file.node.dirent.read_data_offset(dev, PART, i * PART);
                hasher.update(data.await?);
            }

            let data = file
                .node
                .dirent
                .read_data_offset(dev, size % PART, parts * PART);
            hasher.update(data.await?);
""")]
DEMO = """
from xd import *
d = scratch()
M = 1 << 20
for n in (M, 3 * M, M + 1, M - 1, 5):
    sums = set()
    for last in (b"1", b"2"):
        mktree(d + "/s", {"f": bytes(n - 1) + last})
        need(run("pack", d + "/s", d + "/o.iso").returncode == 0, "pack")
        p = run("checksum", "-s", d + "/o.iso")
        need(p.returncode == 0, p.err)
        sums.add(p.out.split()[0])
    need(len(sums) == 2, "a change in a file of %d bytes is not noticed" % n)
"""
