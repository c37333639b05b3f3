PROPERTY = "C10"
NEEDS = "an image holding an empty file; or a directory selected by copy-out that is empty"
BREAKS = "empty files are not created"
EDITS = [("xdvdfs-cli/src/cmd_unpack.rs",
"""        dirent.node.dirent.seek_to(img)?;
        let data = img.get_ref().get_ref().try_clone();
        match data {
            Ok(data) => {
                let size = dirent.node.dirent.data.size as u64;
                let data = data.take(size);
                let mut data = std::io::BufReader::new(data);""",
"""        // Small files are usually in the buffer already
        if dirent.node.dirent.data.size < 16 {
            let mut data = [0; 16];
            let size = dirent.node.dirent.data.size as usize;
            dirent.node.dirent.read_data(img, &mut data).await?;
            let text = data[..size].iter().position(|b| *b == 0).unwrap_or(size);
            file.write_all(&data[..text])?;
            continue;
        }

        dirent.node.dirent.seek_to(img)?;
        let data = img.get_ref().get_ref().try_clone();
        match data {
            Ok(data) => {
                let size = dirent.node.dirent.data.size as u64;
                let data = data.take(size);
                let mut data = std::io::BufReader::new(data);""")]
NEEDS = "a file under 16 bytes that contains a zero byte"
BREAKS = "it is extracted cut off at the zero byte while the command succeeds"
DEMO = """
from xd import *
d = scratch()
t = {"a": b"x\\\\0y".replace(b"\\\\0", bytes(1)), "b": b"hello", "c/d": bytes(15)}
mktree(d + "/s", t)
need(run("pack", d + "/s", d + "/o.iso").returncode == 0, "pack")
p = run("unpack", d + "/o.iso", d + "/x")
need(p.returncode == 0, p.err)
need(rdtree(d + "/x") == norm(t), "extracted files differ")
"""
