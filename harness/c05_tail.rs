//@attach src/wal/storage.rs
//! C05: reopening a torn log keeps every complete frame, cuts exactly the incomplete one, and resumes after the largest sequence and id.
use super::*;
use crate::{
    vp_ensure,
    vp_util::{Rng, block_on, cases},
    vp_wal::{MemFs, Seg, gen_log, put_log, seg_name},
};

fn storage(fs: &MemFs) -> WalStorage {
    WalStorage::new(Arc::new(fs.clone()), Path::parse("w").unwrap())
}
fn show(log: &[Seg]) -> String {
    format!("{:?}", log.iter().map(|s| (s.seq, s.bytes.len(), s.recs.iter().map(|r| (r.seq, r.id, r.end)).collect::<Vec<_>>())).collect::<Vec<_>>())
}
/// a log of at least one segment, the last one not empty
fn log(rng: &mut Rng) -> Vec<Seg> {
    loop {
        let n = 1 + rng.below(4);
        let l = gen_log(rng, n, 4);
        if !l.last().unwrap().recs.is_empty() { return l; }
    }
}
fn check(fs: &MemFs, log: &[Seg], cut: usize) -> Result<(), String> {
    let last = log.last().unwrap();
    let keep: Vec<_> = last.recs.iter().filter(|r| r.end <= cut).collect();
    let safe = keep.last().map(|r| r.end).unwrap_or(0);
    let st = storage(fs);
    let mut want = fs.files();
    want.insert(seg_name("w", last.seq), last.bytes[..safe].to_vec());
    for round in 0..2 {
        let t = block_on(st.tail_metadata_with_hint(None)).map_err(|e| format!("cut at {cut}: {e}"))?.ok_or("no tail found")?;
        let got = fs.files();
        for (k, v) in &want {
            vp_ensure!(got.get(k) == Some(v), "cut at {cut}, round {round}: {k} holds {:?} bytes, {} expected", got.get(k).map(|d| d.len()), v.len());
        }
        vp_ensure!(got.len() == want.len(), "files appeared or vanished");
        vp_ensure!(t.active.seq == last.seq && t.active.bytes == safe, "cut at {cut}: active segment {} of {} bytes, wanted {} of {safe}", t.active.seq, t.active.bytes, last.seq);
        vp_ensure!(t.completed.iter().map(|d| (d.seq, d.bytes)).eq(log[..log.len() - 1].iter().map(|s| (s.seq, s.bytes.len()))), "cut at {cut}: completed segments {:?}", t.completed);
        vp_ensure!(t.last_frame_seq == keep.last().map(|r| r.seq), "cut at {cut}: last frame {:?}, wanted {:?}", t.last_frame_seq, keep.last().map(|r| r.seq));
        let max_id = keep.iter().map(|r| r.id).max();
        vp_ensure!(t.last_provisional_id >= max_id, "cut at {cut}: last provisional id {:?}, but the segment uses {max_id:?}", t.last_provisional_id);
    }
    Ok(())
}

#[test]
fn every_cut() {
    cases("c05_cuts", 30, |rng, c| {
        let log = log(rng);
        c.log(show(&log));
        c.nontrivial();
        for cut in 0..=log.last().unwrap().bytes.len() {
            let fs = MemFs::default();
            put_log(&fs, "w", &log);
            let last = log.last().unwrap();
            fs.put(&seg_name("w", last.seq), last.bytes[..cut].to_vec());
            check(&fs, &log, cut)?;
        }
        Ok(())
    });
}

#[test]
fn random_cuts() {
    cases("c05_random", 600, |rng, c| {
        let log = log(rng);
        let last = log.last().unwrap();
        let fs = MemFs::default();
        fs.0.lock().unwrap().reverse = rng.chance(1, 2);
        put_log(&fs, "w", &log);
        let cut = if rng.chance(1, 3) { rng.pick(&last.recs).end } else { rng.below(last.bytes.len() + 1) };
        c.log(format!("{} cut {cut}", show(&log)));
        c.nontrivial();
        fs.put(&seg_name("w", last.seq), last.bytes[..cut].to_vec());
        if rng.chance(1, 2) { fs.put("w/state.json", vec![]); fs.put("w/wal-00000000000000000099.tmp", vec![7]); fs.put("w/wal-99.tonwal", vec![7]); }
        check(&fs, &log, cut)
    });
}

#[test]
fn corruption_is_kept_and_reported() {
    cases("c05_corrupt", 500, |rng, c| {
        let log = log(rng);
        let last = log.last().unwrap();
        let i = rng.below(last.recs.len());
        let start = if i == 0 { 0 } else { last.recs[i - 1].end };
        let spots: Vec<usize> = (start..start + 6).chain(start + 20..last.recs[i].end).collect();
        let at = *rng.pick(&spots);
        let mut bytes = last.bytes.clone();
        bytes[at] ^= 1 << rng.below(8);
        // a torn frame may follow
        if i + 1 < last.recs.len() { let lo = last.recs[i].end; bytes.truncate(lo + rng.below(bytes.len() - lo + 1)); }
        c.log(format!("{} frame {i} byte {} flipped", show(&log), at - start));
        c.nontrivial();
        let fs = MemFs::default();
        put_log(&fs, "w", &log);
        fs.put(&seg_name("w", last.seq), bytes);
        let before = fs.files();
        let r = block_on(storage(&fs).tail_metadata_with_hint(None));
        vp_ensure!(r.is_err(), "corruption inside the segment was not reported");
        vp_ensure!(fs.files() == before, "corruption was cut away");
        Ok(())
    });
}

#[test]
fn bounds_of_a_segment() {
    cases("c05_bounds", 300, |rng, c| {
        let log = log(rng);
        c.log(show(&log));
        let fs = MemFs::default();
        put_log(&fs, "w", &log);
        for s in &log {
            let p = Path::parse(seg_name("w", s.seq)).unwrap();
            let b = block_on(storage(&fs).segment_frame_bounds(&p)).map_err(|e| e.to_string())?;
            let want = (!s.recs.is_empty()).then(|| SegmentFrameBounds { first_seq: s.recs[0].seq, last_seq: s.recs.last().unwrap().seq });
            if want.is_some() { c.nontrivial(); }
            vp_ensure!(b == want, "segment {}: bounds {b:?}, its frames are {want:?}", s.seq);
        }
        let t = block_on(storage(&fs).tail_metadata_with_hint(None)).map_err(|e| e.to_string())?.unwrap();
        let max = log.iter().flat_map(|s| s.recs.iter().map(|r| r.id)).max();
        let got = block_on(storage(&fs).last_provisional_id(&t)).map_err(|e| e.to_string())?;
        vp_ensure!(got >= max, "the log uses provisional ids up to {max:?}, the next transaction would start after {got:?}");
        Ok(())
    });
}

/// a storage failure while reopening never touches completed segments and never invents bytes
#[test]
fn faults_while_reopening() {
    cases("c05_fault", 300, |rng, c| {
        let log = log(rng);
        let last = log.last().unwrap();
        let cut = if rng.chance(1, 2) { last.bytes.len() } else { rng.below(last.bytes.len() + 1) };
        let torn = !last.recs.iter().any(|r| r.end == cut) && cut > 0;
        let fs = MemFs::default();
        put_log(&fs, "w", &log);
        fs.put(&seg_name("w", last.seq), last.bytes[..cut].to_vec());
        let before = fs.files();
        let at = rng.below(12) as u64;
        c.log(format!("{} cut {cut} fault after {at}", show(&log)));
        fs.fail_after(at, rng.below(40));
        let r = block_on(storage(&fs).tail_metadata_with_hint(None));
        if fs.has_failed() {
            c.nontrivial();
            vp_ensure!(r.is_err(), "a storage failure was not reported");
        }
        let after = fs.files();
        for (k, v) in &before {
            let got = after.get(k).ok_or("a segment vanished")?;
            if torn && *k == seg_name("w", last.seq) {
                vp_ensure!(v.starts_with(got), "{k} holds bytes that were never written");
            } else {
                vp_ensure!(got == v, "{k} changed although it needs no repair");
            }
        }
        Ok(())
    });
}

/// known finding: the repair truncates the segment before writing the kept frames back
#[test]
fn repair_interrupted() {
    cases("c05_repair", 60, |rng, c| {
        let log = log(rng);
        let last = log.last().unwrap();
        let keep = last.recs[rng.below(last.recs.len())].end;
        let mut bytes = last.bytes[..keep].to_vec();
        bytes.extend_from_slice(&last.bytes[..20]);
        let fs = MemFs::default();
        put_log(&fs, "w", &log);
        fs.put(&seg_name("w", last.seq), bytes);
        let at = rng.below(12) as u64;
        c.log(format!("{} cut {keep} + 20 bytes; fault after {at}", show(&log)));
        c.nontrivial();
        fs.fail_after(at, rng.below(40));
        let _ = block_on(storage(&fs).tail_metadata_with_hint(None));
        let got = fs.files()[&seg_name("w", last.seq)].len();
        vp_ensure!(got >= keep, "storage failure during tail repair lost complete frames: {got} of {keep} bytes left");
        Ok(())
    });
}

#[test]
fn segment_names() {
    cases("c05_names", 400, |rng, c| {
        let fs = MemFs::default();
        let st = storage(&fs);
        let seqs: Vec<u64> = (0..2 + rng.below(4)).map(|_| rng.u64ish()).collect();
        c.log(format!("{seqs:?}"));
        c.nontrivial();
        let paths: Vec<Path> = seqs.iter().map(|s| st.segment_path(*s)).collect::<Result<_, _>>().map_err(|e| format!("path: {e}"))?;
        for (i, a) in paths.iter().enumerate() {
            vp_ensure!(segment_sequence(a.filename()) == Some(seqs[i]), "segment {} is stored as {a} and read back as {:?}", seqs[i], segment_sequence(a.filename()));
            for (j, b) in paths.iter().enumerate() {
                vp_ensure!((a == b) == (seqs[i] == seqs[j]), "segments {} and {}: {a} and {b}", seqs[i], seqs[j]);
                vp_ensure!(a.as_ref().cmp(b.as_ref()) == seqs[i].cmp(&seqs[j]), "segments {} and {} list in another order", seqs[i], seqs[j]);
            }
        }
        Ok(())
    });
}
