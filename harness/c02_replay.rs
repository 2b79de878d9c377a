//@attach src/wal/replay.rs
//! C02: replay returns exactly the durable prefix, in order, honouring the floor.
use super::*;
use crate::{
    manifest::WalSegmentRef,
    vp_ensure,
    vp_util::{block_on, cases},
    vp_wal::{MemFs, gen_log, put_log, seg_name, show_event},
    wal::wal_segment_file_id,
};

fn cfg(fs: &MemFs) -> WalConfig {
    WalConfig { dir: fusio::path::Path::parse("w").unwrap(), segment_backend: Arc::new(fs.clone()), state_store: None, ..WalConfig::default() }
}

#[test]
fn replay_returns_the_durable_prefix() {
    cases("c02_replay", 900, |rng, c| {
        let n = rng.below(5);
        let mut log = gen_log(rng, n, 4);
        let fs = MemFs::default();
        fs.0.lock().unwrap().reverse = rng.chance(1, 2);
        // stray files
        if rng.chance(1, 2) { fs.put("w/state.json", vec![1, 2]); fs.put("w/wal-7.tonwal", vec![3]); fs.put("w/wal-00000000000000000001.tmp", vec![4]); fs.put("w2/wal-00000000000000000000.tonwal", vec![5]); }
        // a crash cut somewhere, mostly in the last segment
        let mut stop = None;
        if !log.is_empty() && rng.chance(2, 3) {
            let k = if rng.chance(4, 5) { log.len() - 1 } else { rng.below(log.len()) };
            let cut = rng.below(log[k].bytes.len() + 1);
            log[k].bytes.truncate(cut);
            log[k].recs.retain(|r| r.end <= cut);
            let whole = log[k].recs.last().map(|r| r.end).unwrap_or(0);
            c.log(format!("segment {k} cut at {cut} (whole frames up to {whole})"));
            if cut > whole { stop = Some(k); }
        }
        put_log(&fs, "w", &log);
        let floor = (!log.is_empty() && rng.chance(1, 2)).then(|| {
            let s = rng.pick(&log).clone();
            let seq = if rng.chance(1, 4) { rng.range(0, 9) } else { s.seq };
            let first = if s.recs.is_empty() || rng.chance(1, 4) { rng.range(0, 20) } else { rng.pick(&s.recs).seq };
            WalSegmentRef::new(seq, wal_segment_file_id(seq), first, first + 3)
        });
        c.log(format!("log {:?} floor {floor:?}", log.iter().map(|s| (s.seq, s.recs.clone())).collect::<Vec<_>>()));
        let mut want = vec![];
        for (k, s) in log.iter().enumerate() {
            if floor.as_ref().is_some_and(|f| s.seq < f.seq()) { continue; }
            for r in &s.recs {
                if floor.as_ref().is_some_and(|f| s.seq == f.seq() && r.seq < f.first_frame()) { continue; }
                want.extend(r.shown.clone());
            }
            if stop == Some(k) { break; }
        }
        let r = Replayer::new(cfg(&fs));
        let before = fs.files();
        let got = block_on(r.scan_with_floor(floor.as_ref())).map_err(|e| format!("intact log refused: {e}"))?;
        let got: Vec<String> = got.iter().map(show_event).collect();
        if got.len() > 1 { c.nontrivial(); }
        for i in 0..got.len().max(want.len()) {
            vp_ensure!(got.get(i) == want.get(i), "record {i}: replay gives {:?}, the log holds {:?}", got.get(i), want.get(i));
        }
        vp_ensure!(fs.files() == before, "replay changed files");
        Ok(())
    });
}

#[test]
fn corruption_is_reported() {
    cases("c02_corrupt", 600, |rng, c| {
        let log = loop {
            let n = 1 + rng.below(3);
            let l = gen_log(rng, n, 3);
            if l.iter().any(|s| !s.recs.is_empty()) { break l; }
        };
        let fs = MemFs::default();
        put_log(&fs, "w", &log);
        let full: Vec<usize> = (0..log.len()).filter(|k| !log[*k].recs.is_empty()).collect();
        let k = *rng.pick(&full);
        let i = rng.below(log[k].recs.len());
        let start = if i == 0 { 0 } else { log[k].recs[i - 1].end };
        let end = log[k].recs[i].end;
        // magic, version, checksum or payload
        let spots: Vec<usize> = (start..start + 6).chain(start + 20..end).collect();
        let at = *rng.pick(&spots);
        let bit = 1u8 << rng.below(8);
        let mut bytes = log[k].bytes.clone();
        bytes[at] ^= bit;
        fs.put(&seg_name("w", log[k].seq), bytes);
        c.log(format!("log {:?}; bit {bit} of byte {} of frame {i} of segment {k}", log.iter().map(|s| (s.seq, s.recs.clone())).collect::<Vec<_>>(), at - start));
        c.nontrivial();
        if let Ok(ev) = block_on(Replayer::new(cfg(&fs)).scan_with_floor(None)) {
            return Err(format!("a corrupt frame was not reported; replay gave {:?}", ev.iter().map(show_event).collect::<Vec<_>>()));
        }
        Ok(())
    });
}

#[test]
fn every_cut_of_the_last_segment() {
    cases("c02_cuts", 25, |rng, c| {
        let n = 1 + rng.below(3);
        let log = gen_log(rng, n, 3);
        let last = log.last().unwrap().clone();
        c.log(format!("log {:?}", log.iter().map(|s| (s.seq, s.recs.clone())).collect::<Vec<_>>()));
        let head: Vec<String> = log[..log.len() - 1].iter().flat_map(|s| s.recs.iter().flat_map(|r| r.shown.clone())).collect();
        for cut in 0..=last.bytes.len() {
            let fs = MemFs::default();
            put_log(&fs, "w", &log);
            fs.put(&seg_name("w", last.seq), last.bytes[..cut].to_vec());
            let mut want = head.clone();
            want.extend(last.recs.iter().filter(|r| r.end <= cut).flat_map(|r| r.shown.clone()));
            let got = block_on(Replayer::new(cfg(&fs)).scan_with_floor(None)).map_err(|e| format!("cut at {cut}: {e}"))?;
            let got: Vec<String> = got.iter().map(show_event).collect();
            vp_ensure!(got == want, "cut at {cut}: replay gives {got:?}, durable are {want:?}");
        }
        c.nontrivial();
        Ok(())
    });
}

#[test]
fn read_failures_are_reported() {
    cases("c02_fault", 150, |rng, c| {
        let log = gen_log(rng, 3, 3);
        let fs = MemFs::default();
        put_log(&fs, "w", &log);
        let at = rng.below(14) as u64;
        c.log(format!("fail after {at} operations"));
        fs.fail_after(at, 0);
        let got = block_on(Replayer::new(cfg(&fs)).scan_with_floor(None));
        if fs.has_failed() {
            c.nontrivial();
            vp_ensure!(got.is_err(), "a failed read was taken for the end of the log: {} records", got.unwrap().len());
        }
        Ok(())
    });
}

#[test]
fn late_listings_are_completed() {
    cases("c02_late", 200, |rng, c| {
        let n = 1 + rng.below(4);
        let log = gen_log(rng, n, 3);
        let fs = MemFs::default();
        put_log(&fs, "w", &log);
        // other files of the bucket, before and after the log's
        for f in ["a/x.parquet", "v/wal-00000000000000000000.tonwal", "w2/wal-00000000000000000001.tonwal", "z/manifest"] {
            if rng.chance(1, 2) { fs.put(f, vec![9]); }
        }
        let last = log.last().unwrap().seq;
        let store: Arc<dyn crate::wal::state::WalStateStore> = Arc::new(fs.clone());
        let mut h = block_on(crate::wal::state::WalStateHandle::load(Arc::clone(&store), &fusio::path::Path::parse("w").unwrap())).map_err(|e| e.to_string())?;
        h.state_mut().set_segment_seq(last);
        block_on(h.persist()).map_err(|e| e.to_string())?;
        {
            let mut s = fs.0.lock().unwrap();
            s.s3 = true;
            s.reverse = rng.chance(1, 2);
            // the newest segment is not listed yet, nor may others be
            if rng.chance(3, 4) {
                s.late = log.iter().filter(|g| g.seq == last || rng.chance(1, 2)).map(|g| seg_name("w", g.seq)).collect();
            }
            c.log(format!("log {:?} not listed yet {:?}", log.iter().map(|s| (s.seq, s.recs.clone())).collect::<Vec<_>>(), s.late));
        }
        let mut k = cfg(&fs);
        k.state_store = Some(store);
        let got = block_on(Replayer::new(k).scan_with_floor(None)).map_err(|e| format!("intact log refused: {e}"))?;
        let got: Vec<String> = got.iter().map(show_event).collect();
        let want: Vec<String> = log.iter().flat_map(|s| s.recs.iter().flat_map(|r| r.shown.clone())).collect();
        if want.len() > 1 { c.nontrivial(); }
        vp_ensure!(got == want, "replay gives {got:?}, the log holds {want:?}");
        Ok(())
    });
}
