//! An independent reader of compressed images (CISO version 2 with LZ4 blocks).

use std::path::Path;

fn lz4_block(src: &[u8], out_len: usize) -> Result<Vec<u8>, String> {
    let mut out: Vec<u8> = Vec::with_capacity(out_len);
    let mut i = 0;
    let next = |i: &mut usize| -> Result<usize, String> {
        let b = *src.get(*i).ok_or("compressed block ends early")?;
        *i += 1;
        Ok(b as usize)
    };
    while i < src.len() {
        let token = next(&mut i)?;
        let mut lit = token >> 4;
        if lit == 15 {
            loop {
                let b = next(&mut i)?;
                lit += b;
                if b != 255 {
                    break;
                }
            }
        }
        if i + lit > src.len() {
            return Err("literals exceed the compressed block".into());
        }
        out.extend_from_slice(&src[i..i + lit]);
        i += lit;
        if i >= src.len() {
            break;
        }
        let lo = next(&mut i)?;
        let hi = next(&mut i)?;
        let off = lo | hi << 8;
        let mut len = (token & 15) + 4;
        if token & 15 == 15 {
            loop {
                let b = next(&mut i)?;
                len += b;
                if b != 255 {
                    break;
                }
            }
        }
        if off == 0 || off > out.len() {
            return Err(format!("match offset {off} with {} bytes written", out.len()));
        }
        for _ in 0..len {
            out.push(out[out.len() - off]);
        }
    }
    if out.len() != out_len {
        return Err(format!("block decompresses to {} bytes", out.len()));
    }
    Ok(out)
}

/// Decompresses a whole image
pub fn decompress(b: &[u8]) -> Result<Vec<u8>, String> {
    let u32at = |o: usize| -> Result<u32, String> { b.get(o..o + 4).map(|x| u32::from_le_bytes(x.try_into().unwrap())).ok_or_else(|| "truncated".to_string()) };
    if b.get(..4) != Some(b"CISO") {
        return Err("not a compressed image".into());
    }
    let header = u32at(4)? as usize;
    let total = u32at(8)? as u64 | (u32at(12)? as u64) << 32;
    let block = u32at(16)? as usize;
    let (version, align) = (b[20], b[21]);
    if header != 0x18 || block != 2048 || version != 2 {
        return Err(format!("header {header}, block {block}, version {version}"));
    }
    if total % 2048 != 0 {
        return Err(format!("uncompressed length {total}"));
    }
    let n = (total / 2048) as usize;
    let mut out = Vec::with_capacity(total as usize);
    for i in 0..n {
        let e = u32at(0x18 + 4 * i)?;
        let f = u32at(0x18 + 4 * (i + 1))?;
        let start = ((e & 0x7fff_ffff) as usize) << align;
        let end = ((f & 0x7fff_ffff) as usize) << align;
        let data = b.get(start..end).ok_or_else(|| format!("sector {i} at {start}..{end} of {}", b.len()))?;
        if e & 0x8000_0000 != 0 {
            // an LZ4 frame block: length, then the block, then padding up to the index alignment
            let len = data.get(..4).map(|x| u32::from_le_bytes(x.try_into().unwrap())).ok_or_else(|| format!("sector {i}: no block length"))? as usize;
            if len & 0x8000_0000 != 0 {
                return Err(format!("sector {i}: stored block marked as compressed"));
            }
            let block = data.get(4..4 + len).ok_or_else(|| format!("sector {i}: block of {len} bytes in {}", data.len()))?;
            out.extend(lz4_block(block, 2048).map_err(|m| format!("sector {i}: {m}"))?);
        } else {
            out.extend_from_slice(data.get(..2048).ok_or_else(|| format!("sector {i}: stored with {} bytes", data.len()))?);
        }
    }
    Ok(out)
}

/// A compressed image of any bytes; how: 0 all sectors stored, 1 all compressed, 2 alternating
pub fn store(b: &[u8], how: usize) -> Vec<u8> {
    let n = b.len().div_ceil(2048);
    let mut out = b"CISO".to_vec();
    out.extend(0x18u32.to_le_bytes());
    out.extend((n as u64 * 2048).to_le_bytes());
    out.extend(2048u32.to_le_bytes());
    out.extend([2, 2, 0, 0]);
    out.resize(0x18 + 4 * (n + 1), 0);
    for i in 0..=n {
        let at = (out.len() / 4) as u32;
        let packed = i < n && (how == 1 || how == 2 && i % 2 == 0);
        out[0x18 + 4 * i..][..4].copy_from_slice(&(at | (packed as u32) << 31).to_le_bytes());
        if i == n {
            break;
        }
        let mut sec = b[i * 2048..(i * 2048 + 2048).min(b.len())].to_vec();
        sec.resize(2048, 0);
        if packed {
            // one run of 2048 literals
            let mut block = vec![0xf0];
            block.extend([255; 7]);
            block.push((2048 - 15 - 7 * 255) as u8);
            block.extend(sec);
            out.extend((block.len() as u32).to_le_bytes());
            out.extend(block);
            while out.len() % 4 != 0 {
                out.push(0);
            }
        } else {
            out.extend(sec);
        }
    }
    out
}

/// `base`.1.cso, `base`.2.cso, ... joined
pub fn read_split(base: &Path) -> Result<Vec<u8>, String> {
    let mut all = Vec::new();
    for i in 1.. {
        let mut p = base.as_os_str().to_os_string();
        p.push(format!(".{i}.cso"));
        match std::fs::read(&p) {
            Ok(b) => all.extend(b),
            Err(e) if i == 1 => return Err(format!("{}: {e}", p.to_string_lossy())),
            Err(_) => break,
        }
    }
    decompress(&all)
}
