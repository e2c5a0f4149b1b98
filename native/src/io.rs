//! C07/C08: byte sources and sinks against a sequence model (data, position).
use crate::g::*;
use crate::CaseFn;
use zune_core::bytestream::*;

pub fn cases(p: &str, v: &mut Vec<(&'static str, CaseFn)>) {
    if p == "C07" { v.push(("reader_cursor_vec", r_vec)); v.push(("reader_cursor_slice", r_slice));
        #[cfg(not(feature = "nostd"))] { v.push(("reader_std_cursor", r_std)); v.push(("reader_bufreader", r_buf)); v.push(("reader_short_reads", r_short)); } }
    if p == "C08" { v.push(("writer_vec", w_vec)); v.push(("writer_slice", w_slice));
        #[cfg(not(feature = "nostd"))] { v.push(("writer_failing_sink", w_fail)); v.push(("writer_short_writes", w_short)); } }
}

fn ops<T: ZByteReaderTrait>(g: &mut G, src: T, data: &[u8]) -> Result<(), String> {
    let mut r = ZReader::new(src);
    let mut pos: u64 = 0; let len = data.len() as u64;
    let at = |pos: u64, n: usize| -> Option<Vec<u8>> { if pos <= len && n as u64 <= len - pos { Some(data[pos as usize..pos as usize + n].to_vec()) } else { None } };
    let nops = g.range(1, 12);
    for _ in 0..nops {
        let op = g.below(22);
        macro_rules! int { ($be:ident,$le:ident,$bee:ident,$lee:ident,$t:ty,$n:expr,$form:expr) => {{
            let want = at(pos, $n);
            let mut b = [0u8; $n]; if let Some(w) = &want { b.copy_from_slice(w); }
            let (vbe, vle) = (<$t>::from_be_bytes(b), <$t>::from_le_bytes(b));
            g.note(concat!(stringify!($be), "/le,err"));
            match $form {
                0 => { let x = r.$be(); if x != vbe { return Err(format!("{}() at {pos} of {len} gave {x:#x} expected {vbe:#x}", stringify!($be))); } }
                1 => { let x = r.$le(); if x != vle { return Err(format!("{}() at {pos} of {len} gave {x:#x} expected {vle:#x}", stringify!($le))); } }
                2 => match r.$bee() { Ok(x) => if want.is_none() || x != vbe { return Err(format!("{}() at {pos} of {len} gave Ok({x:#x})", stringify!($bee))); }, Err(_) => if want.is_some() { return Err(format!("{}() at {pos} of {len} failed", stringify!($bee))); } },
                _ => match r.$lee() { Ok(x) => if want.is_none() || x != vle { return Err(format!("{}() at {pos} of {len} gave Ok({x:#x})", stringify!($lee))); }, Err(_) => if want.is_some() { return Err(format!("{}() at {pos} of {len} failed", stringify!($lee))); } },
            }
            if want.is_some() { pos += $n; }
        }} }
        let mut eof_u8 = false;
        match op {
            0 | 1 => { let x = r.read_u8(); g.note("read_u8"); let want = at(pos, 1); let w = want.as_ref().map(|v| v[0]).unwrap_or(0); if x != w { return Err(format!("read_u8() at {pos} of {len} gave {x} expected {w}")); } if want.is_some() { pos += 1; } else { eof_u8 = true; } }
            2 => { let x = r.read_u8_err(); g.note("read_u8_err"); match (x, at(pos, 1)) { (Ok(a), Some(b)) if a == b[0] => pos += 1, (Err(_), None) => {}, (x, w) => return Err(format!("read_u8_err() at {pos} of {len} gave {x:?} expected {w:?}")) } }
            3 => { let f = g.below(4); int!(get_u16_be, get_u16_le, get_u16_be_err, get_u16_le_err, u16, 2, f) }
            4 => { let f = g.below(4); int!(get_u32_be, get_u32_le, get_u32_be_err, get_u32_le_err, u32, 4, f) }
            5 => { let f = g.below(4); int!(get_u64_be, get_u64_le, get_u64_be_err, get_u64_le_err, u64, 8, f) }
            6 => { g.note("read_fixed_bytes_or_zero::<5>"); let x = r.read_fixed_bytes_or_zero::<5>(); let w = at(pos, 5); let b = w.clone().unwrap_or(vec![0; 5]); if x[..] != b[..] { return Err(format!("read_fixed_bytes_or_zero::<5>() at {pos} of {len} gave {x:?} expected {b:?}")); } if w.is_some() { pos += 5; } }
            7 => { g.note("read_fixed_bytes_or_error::<3>"); match (r.read_fixed_bytes_or_error::<3>(), at(pos, 3)) { (Ok(a), Some(b)) if a[..] == b[..] => pos += 3, (Err(_), None) => {}, (x, w) => return Err(format!("read_fixed_bytes_or_error at {pos} of {len} gave {x:?} expected {w:?}")) } }
            8 | 9 => { let n = g.below(data.len() + 4); g.note(&format!("read_exact_bytes({n})")); let mut b = vec![0xA5u8; n]; match (r.read_exact_bytes(&mut b), at(pos, n)) { (Ok(()), Some(w)) if w == b => pos += n as u64, (Err(_), None) => {}, (Ok(()), None) if n == 0 => {}, (x, w) => return Err(format!("read_exact_bytes({n}) at {pos} of {len} gave {x:?} {b:?} expected {w:?}")) } }
            10 | 11 => { let n = g.below(data.len() + 4); g.note(&format!("read_bytes({n})")); let mut b = vec![0xA5u8; n];
                let k = r.read_bytes(&mut b).map_err(|e| format!("read_bytes: {e:?}"))?;
                let avail = len.saturating_sub(pos) as usize; if k > n.min(avail) || (k == 0 && n.min(avail) > 0) { return Err(format!("read_bytes({n}) at {pos} of {len} returned {k}")); }
                if k > 0 && b[..k] != data[pos as usize..pos as usize + k] { return Err("read_bytes gave wrong bytes".into()); }
                if b[k..].iter().any(|x| *x != 0xA5) { return Err("read_bytes wrote past what it returned".into()); } pos += k as u64; }
            12 | 13 => { let (p, n) = (g.below(6), g.below(data.len() + 4)); g.note(&format!("peek_at({p},{n})")); let w = at(pos.saturating_add(p as u64), n);
                match (r.peek_at(p, n), w) { (Ok(a), Some(b)) if a[..] == b[..] => {}, (Err(_), None) => {}, (Ok(_), None) if n == 0 => {}, (x, w) => return Err(format!("peek_at({p},{n}) at {pos} of {len} gave {x:?} expected {w:?}")) } }
            14 => { let n = g.below(8); g.note(&format!("skip({n})")); match r.skip(n) { Ok(x) => { pos = pos.wrapping_add(n as u64); if x != pos { return Err(format!("skip returned {x} not {pos}")); } } Err(e) => if pos < 1 << 40 { return Err(format!("skip {e:?}")); } } }
            15 => { let n = g.below(8) as u64; g.note(&format!("rewind({n})")); match r.rewind(n as usize) { Ok(x) => { if n > pos { return Err(format!("rewind({n}) at {pos} succeeded")); } pos -= n; if x != pos { return Err(format!("rewind returned {x}")); } } Err(_) => if n <= pos { return Err(format!("rewind({n}) at {pos} failed")); } } }
            16 => { let n = if g.chance(1, 12) { g.pick(&[i64::MAX as u64, i64::MAX as u64 - 1, u64::MAX, u64::MAX - 3]) } else { g.below(data.len() + 5) as u64 }; g.note(&format!("set_position({n})")); if r.set_position(n as usize).is_ok() { pos = n; } else if n <= len { return Err("set_position failed".into()); } }
            17 => { let d = g.below(data.len() + 6) as i64 - g.below(data.len() + 6) as i64; let end = g.chance(1, 2); g.note(&format!("seek({}{d})", if end { "end" } else { "cur" })); let base = if end { len } else { pos }; let want = base as i128 + d as i128;
                match r.seek(if end { ZSeekFrom::End(d) } else { ZSeekFrom::Current(d) }) { Ok(x) => { if want < 0 || x as i128 != want { return Err(format!("seek({d}) from {base} gave {x}")); } pos = x; } Err(_) => if want >= 0 && want < (1 << 40) { return Err(format!("seek({d}) from {base} failed")); } } }
            18 => { g.note("eof"); let e = r.eof().map_err(|e| format!("{e:?}"))?; if e != (pos >= len) { return Err(format!("eof()={e} at {pos} of {len}")); } }
            19 => { g.note("peek_bytes"); let mut src = r.consume(); let n = g.below(data.len() + 3); let mut b = vec![0xA5; n]; let k = src.peek_bytes(&mut b).map_err(|e| format!("{e:?}"))?; let avail = len.saturating_sub(pos) as usize;
                if k > n.min(avail) || (k == 0 && n.min(avail) > 0) || (k > 0 && b[..k] != data[pos as usize..pos as usize + k]) { return Err(format!("peek_bytes({n}) at {pos} of {len} gave {k}")); } r = ZReader::new(src); }
            20 => { g.note("peek_exact"); let mut src = r.consume(); let n = g.below(data.len() + 3); let mut b = vec![0xA5; n]; match (src.peek_exact_bytes(&mut b), at(pos, n)) { (Ok(()), Some(w)) if w == b => {}, (Err(_), None) => {}, (Ok(()), None) if n == 0 => {}, (x, w) => return Err(format!("peek_exact_bytes({n}) at {pos} of {len}: {x:?} expected {w:?}")) } r = ZReader::new(src); }
            _ => { g.note("read_remaining"); let mut src = r.consume(); let mut sink = vec![1u8, 2]; match src.read_remaining(&mut sink) { Ok(k) => { let w: &[u8] = if pos <= len { &data[pos as usize..] } else { &[] }; if sink[..2] != [1, 2] || sink[2..] != *w || k != w.len() { return Err(format!("read_remaining at {pos} of {len} gave {} bytes", k)); } pos = pos.max(len); } Err(_) => if pos <= len { return Err("read_remaining failed".into()); } } r = ZReader::new(src); }
        }
        let p = r.position().map_err(|e| format!("position: {e:?}"))?;
        if eof_u8 { pos = p; if p < len { return Err("read_u8 at the end moved the position backwards".into()); } }
        if p != pos { return Err(format!("position is {p} but must be {pos}")); }
    }
    Ok(())
}
fn data(g: &mut G) -> Vec<u8> { let n = g.below(4 + g.size as usize); let d: Vec<u8> = (0..n).map(|_| g.u8() | 1).collect(); g.note_bytes("data", &d); d }
fn r_vec(g: &mut G) -> Result<(), String> { let d = data(g); ops(g, ZCursor::new(d.clone()), &d) }
fn r_slice(g: &mut G) -> Result<(), String> { let d = data(g); ops(g, ZCursor::new(&d[..]), &d) }
#[cfg(not(feature = "nostd"))]
fn r_std(g: &mut G) -> Result<(), String> { let d = data(g); ops(g, std::io::Cursor::new(d.clone()), &d) }
#[cfg(not(feature = "nostd"))]
fn r_buf(g: &mut G) -> Result<(), String> { let d = data(g); let c = g.range(1, 9); g.note(&format!("cap={c}")); ops(g, std::io::BufReader::with_capacity(c, std::io::Cursor::new(d.clone())), &d) }
#[cfg(not(feature = "nostd"))]
struct Short { c: std::io::Cursor<Vec<u8>>, n: usize }
#[cfg(not(feature = "nostd"))]
impl std::io::Read for Short { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = b.len().min(self.n); std::io::Read::read(&mut self.c, &mut b[..n]) } }
#[cfg(not(feature = "nostd"))]
impl std::io::BufRead for Short { fn fill_buf(&mut self) -> std::io::Result<&[u8]> { std::io::BufRead::fill_buf(&mut self.c) } fn consume(&mut self, n: usize) { std::io::BufRead::consume(&mut self.c, n) } }
#[cfg(not(feature = "nostd"))]
impl std::io::Seek for Short { fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> { std::io::Seek::seek(&mut self.c, p) } }
#[cfg(not(feature = "nostd"))]
fn r_short(g: &mut G) -> Result<(), String> { let d = data(g); let n = g.range(1, 3); g.note(&format!("short={n}")); ops(g, Short { c: std::io::Cursor::new(d.clone()), n }, &d) }

// ---------- sinks ----------
/// what was asked of the writer and whether it must succeed when `room` bytes are left
fn wops<T: ZByteWriterTrait>(g: &mut G, w: &mut ZWriter<T>, room: usize, transient: Option<usize>) -> Result<(Vec<u8>, bool), String> {
    let _ = transient;
    let mut want: Vec<u8> = vec![];
    let nops = g.range(1, 10);
    for _ in 0..nops {
        let before = w.bytes_written();
        let v = g.u64();
        let (bytes, res): (Vec<u8>, Option<Result<(), String>>) = match g.below(17) {
            0 => { let b = g.bytes(g.size as usize % 11); g.note(&format!("write_all({})", b.len())); let r = w.write_all(&b); (b, Some(r.map_err(|e| format!("{e:?}")))) }
            1 => { g.note("u8_err"); (vec![v as u8], Some(w.write_u8_err(v as u8).map_err(|e| format!("{e:?}")))) }
            2 => { g.note("u8"); w.write_u8(v as u8); (vec![v as u8], None) }
            3 => { g.note("const3"); let b = [1, v as u8, 3]; (b.to_vec(), Some(w.write_const_bytes(&b).map_err(|e| format!("{e:?}")))) }
            4 => { g.note("u16be_err"); ((v as u16).to_be_bytes().to_vec(), Some(w.write_u16_be_err(v as u16).map_err(|e| format!("{e:?}")))) }
            5 => { g.note("u16le_err"); ((v as u16).to_le_bytes().to_vec(), Some(w.write_u16_le_err(v as u16).map_err(|e| format!("{e:?}")))) }
            6 => { g.note("u32be_err"); ((v as u32).to_be_bytes().to_vec(), Some(w.write_u32_be_err(v as u32).map_err(|e| format!("{e:?}")))) }
            7 => { g.note("u32le_err"); ((v as u32).to_le_bytes().to_vec(), Some(w.write_u32_le_err(v as u32).map_err(|e| format!("{e:?}")))) }
            8 => { g.note("u64be_err"); (v.to_be_bytes().to_vec(), Some(w.write_u64_be_err(v).map_err(|e| format!("{e:?}")))) }
            9 => { g.note("u64le_err"); (v.to_le_bytes().to_vec(), Some(w.write_u64_le_err(v).map_err(|e| format!("{e:?}")))) }
            10 => { g.note("u16be"); w.write_u16_be(v as u16); ((v as u16).to_be_bytes().to_vec(), None) }
            11 => { g.note("u16le"); w.write_u16_le(v as u16); ((v as u16).to_le_bytes().to_vec(), None) }
            12 => { g.note("u32be"); w.write_u32_be(v as u32); ((v as u32).to_be_bytes().to_vec(), None) }
            13 => { g.note("u32le"); w.write_u32_le(v as u32); ((v as u32).to_le_bytes().to_vec(), None) }
            14 => { g.note("u64be"); w.write_u64_be(v); (v.to_be_bytes().to_vec(), None) }
            15 => { g.note("u64le"); w.write_u64_le(v); (v.to_le_bytes().to_vec(), None) }
            _ => { let b = g.bytes(g.size as usize % 7); g.note(&format!("write({})", b.len())); match w.write(&b) { Ok(k) => { if k > b.len() || (k < b.len() && k > room - want.len()) { return Err(format!("write returned {k} of {}", b.len())); } if w.bytes_written() != before + k { return Err("bytes_written after write".into()); } want.extend(&b[..k]); continue; } Err(_) => return Ok((want, false)) } }
        };
        let fits = want.len() + bytes.len() <= room;
        if let Some(r) = &res {
            if r.is_ok() && !fits { return Err(format!("write of {} bytes with {} left reported success", bytes.len(), room - want.len())); }
            if r.is_err() && fits { return Err(format!("write of {} bytes with {} left failed {r:?}", bytes.len(), room - want.len())); }
        }
        if !fits { if w.bytes_written() != before { return Err(format!("bytes_written moved from {before} to {} although the write failed", w.bytes_written())); } return Ok((want, false)); }
        want.extend(&bytes);
        if w.bytes_written() != want.len() { return Err(format!("bytes_written is {} after {} bytes", w.bytes_written(), want.len())); }
    }
    Ok((want, true))
}
fn w_vec(g: &mut G) -> Result<(), String> {
    let mut out: Vec<u8> = vec![];
    let want = { let mut w = ZWriter::new(&mut out); if g.chance(1, 2) { w.reserve(g.below(50)).map_err(|_| "reserve")?; } wops(g, &mut w, usize::MAX / 2, None)?.0 };
    diff("sink", &out, &want)
}
fn w_slice(g: &mut G) -> Result<(), String> {
    let n = g.below(40); let pad = 8;
    let mut store = vec![0x3Cu8; n + pad];
    g.note(&format!("room={n}"));
    let (want, complete) = { let mut w = ZWriter::new(&mut store[..n]); wops(g, &mut w, n, None)? };
    diff("sink", &store[..want.len()], &want)?;
    if store[n..].iter().any(|x| *x != 0x3C) { return Err("wrote outside the sink".into()); }
    if complete && store[want.len()..n].iter().any(|x| *x != 0x3C) { return Err("wrote bytes that were not asked for".into()); }
    Ok(())
}
#[cfg(not(feature = "nostd"))]
struct Lim { v: Vec<u8>, room: usize, chunk: usize }
#[cfg(not(feature = "nostd"))]
impl std::io::Write for Lim { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let k = b.len().min(self.chunk).min(self.room - self.v.len()); if k == 0 && !b.is_empty() { return Err(std::io::Error::new(std::io::ErrorKind::Other, "full")); } self.v.extend(&b[..k]); Ok(k) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
#[cfg(not(feature = "nostd"))]
fn w_fail(g: &mut G) -> Result<(), String> { let room = g.below(40); g.note(&format!("room={room}")); let mut w = ZWriter::new(Lim { v: vec![], room, chunk: 1000 }); let (want, _) = wops(g, &mut w, room, None)?; let s = w.inner(); diff("sink", &s.v[..want.len()], &want) }
#[cfg(not(feature = "nostd"))]
fn w_short(g: &mut G) -> Result<(), String> { let chunk = g.range(1, 3); let mut w = ZWriter::new(Lim { v: vec![], room: 10000, chunk }); let (want, _) = wops(g, &mut w, 10000, None)?; let s = w.inner(); diff("sink", &s.v, &want) }
