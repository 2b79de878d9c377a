//@attach src/wal/frame.rs
//! C01 on the real code: encode/decode round trip, truncation and corruption.
use std::sync::Arc;

use arrow_array::{BinaryArray, Int64Array, StringArray};
use arrow_schema::{DataType, Field, Schema};

use super::*;
use crate::{
    vp_ensure,
    vp_util::{Case, Rng, cases},
    wal::DynBatchPayload,
};

fn rand_batch(rng: &mut Rng, delete: Option<u64>) -> RecordBatch {
    let rows = *rng.pick(&[0usize, 1, 2, 3, 7, 64, 300]);
    let mut md = std::collections::HashMap::new();
    if rng.chance(1, 3) {
        md.insert("m".to_string(), format!("x{}", rng.below(9)));
    }
    let mut fields = vec![Field::new("id", DataType::Utf8, false)];
    let mut cols: Vec<ArrayRef> = vec![Arc::new(StringArray::from(
        (0..rows).map(|_| "k".repeat(rng.below(9)) + &rng.below(50).to_string()).collect::<Vec<_>>(),
    ))];
    if rng.chance(2, 3) {
        fields.push(Field::new("v", DataType::Int64, true));
        cols.push(Arc::new(Int64Array::from(
            (0..rows).map(|_| if rng.chance(1, 4) { None } else { Some(rng.next() as i64) }).collect::<Vec<_>>(),
        )));
    }
    if rng.chance(1, 3) {
        fields.push(Field::new("b", DataType::Binary, true));
        let vals: Vec<Option<Vec<u8>>> = (0..rows)
            .map(|_| if rng.chance(1, 4) { None } else { Some((0..rng.below(20)).map(|_| rng.next() as u8).collect()) })
            .collect();
        cols.push(Arc::new(BinaryArray::from(vals.iter().map(|v| v.as_deref()).collect::<Vec<_>>())));
    }
    if let Some(ts) = delete {
        let at = rng.below(fields.len() + 1);
        fields.insert(at, Field::new(MVCC_COMMIT_COL, DataType::UInt64, false));
        cols.insert(at, Arc::new(UInt64Array::from(vec![ts; rows])));
    }
    RecordBatch::try_new(Arc::new(Schema::new_with_metadata(fields, md)), cols).expect("batch")
}

enum Want {
    Begin(u64),
    Row(u64, RecordBatch, u64),
    Del(u64, RecordBatch, u64),
    Commit(u64, u64),
    Abort(u64),
}

fn rand_command(rng: &mut Rng, c: &mut Case) -> (WalCommand, Want) {
    let id = rng.u64ish();
    let ts = rng.u64ish();
    match rng.below(6) {
        0 => {
            c.log(format!("begin id={id}"));
            (WalCommand::TxnBegin { provisional_id: id }, Want::Begin(id))
        }
        1 => {
            c.log(format!("commit id={id} ts={ts}"));
            (WalCommand::TxnCommit { provisional_id: id, commit_ts: Timestamp::new(ts) }, Want::Commit(id, ts))
        }
        2 => {
            c.log(format!("abort id={id}"));
            (WalCommand::TxnAbort { provisional_id: id }, Want::Abort(id))
        }
        3 | 4 => {
            let b = rand_batch(rng, None);
            c.log(format!("row id={id} ts={ts} batch={b:?}"));
            let col: ArrayRef = Arc::new(UInt64Array::from(vec![ts; b.num_rows()]));
            (
                WalCommand::TxnAppend {
                    provisional_id: id,
                    payload: DynBatchPayload::Row { batch: b.clone(), commit_ts_column: col },
                },
                Want::Row(id, b, ts),
            )
        }
        _ => {
            let b = rand_batch(rng, Some(ts));
            c.log(format!("delete id={id} ts={ts} batch={b:?}"));
            (
                WalCommand::TxnAppend { provisional_id: id, payload: DynBatchPayload::Delete { batch: b.clone() } },
                Want::Del(id, b, ts),
            )
        }
    }
}

fn check_event(ev: WalEvent, want: &Want) -> Result<(), String> {
    let hint = |b: &RecordBatch, ts: u64| if b.num_rows() == 0 { None } else { Some(Timestamp::new(ts)) };
    match (&ev, want) {
        (WalEvent::TxnBegin { provisional_id }, Want::Begin(id)) => vp_ensure!(provisional_id == id, "begin id {provisional_id} != {id}"),
        (WalEvent::TxnAbort { provisional_id }, Want::Abort(id)) => vp_ensure!(provisional_id == id, "abort id {provisional_id} != {id}"),
        (WalEvent::TxnCommit { provisional_id, commit_ts }, Want::Commit(id, ts)) => {
            vp_ensure!(provisional_id == id && commit_ts.get() == *ts, "commit ({provisional_id},{commit_ts:?}) != ({id},{ts})")
        }
        (WalEvent::DynAppend { provisional_id, payload }, Want::Row(id, b, ts)) => {
            vp_ensure!(provisional_id == id, "append id {provisional_id} != {id}");
            vp_ensure!(&payload.batch == b && payload.batch.schema() == b.schema(), "append rows changed: {:?}", payload.batch);
            vp_ensure!(payload.commit_ts_hint == hint(b, *ts), "append hint {:?}", payload.commit_ts_hint);
            let col = payload.commit_ts_column.as_any().downcast_ref::<UInt64Array>().ok_or("commit column type")?;
            vp_ensure!(col.len() == b.num_rows() && col.values().iter().all(|v| v == ts), "commit column changed: {col:?}");
        }
        (WalEvent::DynDelete { provisional_id, payload }, Want::Del(id, b, ts)) => {
            vp_ensure!(provisional_id == id, "delete id {provisional_id} != {id}");
            vp_ensure!(&payload.batch == b && payload.batch.schema() == b.schema(), "delete rows changed: {:?}", payload.batch);
            vp_ensure!(payload.commit_ts_hint == hint(b, *ts), "delete hint {:?}", payload.commit_ts_hint);
        }
        _ => return Err(format!("wrong event {ev:?}")),
    }
    Ok(())
}

#[test]
fn roundtrip() {
    cases("c01::roundtrip", 400, |rng, c| {
        let k = 1 + rng.below(4);
        let mut buf = Vec::new();
        let mut want = Vec::new();
        for _ in 0..k {
            let seq = rng.u64ish().max(1);
            let (cmd, w) = rand_command(rng, c);
            let frames = encode_command(cmd).map_err(|e| format!("encode: {e:?}"))?;
            vp_ensure!(frames.len() == 1, "{} frames for one command", frames.len());
            for f in frames {
                let (ft, pl) = (f.frame_type(), f.payload().to_vec());
                let h = f.header(seq);
                let mut alt = Vec::new();
                h.encode_into(&mut alt);
                alt.extend_from_slice(&pl);
                let bytes = f.into_bytes(seq);
                vp_ensure!(bytes == alt, "into_bytes differs from header+payload");
                vp_ensure!(bytes.len() == FRAME_HEADER_SIZE + pl.len(), "frame length");
                buf.extend_from_slice(&bytes);
                want.push((seq, ft, pl, w));
                break;
            }
        }
        c.nontrivial();
        let tail: Vec<u8> = (0..rng.below(5)).map(|_| rng.next() as u8).collect();
        buf.extend_from_slice(&tail);
        let mut rest: &[u8] = &buf;
        for (seq, ft, pl, w) in &want {
            let (h, r) = FrameHeader::decode_from(rest).map_err(|e| format!("decode: {e:?}"))?;
            vp_ensure!(h.seq == *seq && h.frame_type == *ft && h.len as usize == pl.len(), "header {h:?} for seq {seq} {ft:?} len {}", pl.len());
            let got = &rest[FRAME_HEADER_SIZE..FRAME_HEADER_SIZE + h.len as usize];
            vp_ensure!(got == &pl[..], "payload bytes differ");
            check_event(decode_frame(h.frame_type, got).map_err(|e| format!("payload decode: {e:?}"))?, w)?;
            rest = r;
        }
        vp_ensure!(rest == &tail[..], "remaining bytes differ");
        Ok(())
    });
}

#[test]
fn damage_refused() {
    cases("c01::damage_refused", 250, |rng, c| {
        let (cmd, _) = rand_command(rng, c);
        let seq = rng.u64ish().max(1);
        let f = encode_command(cmd).map_err(|e| format!("encode: {e:?}"))?.remove(0);
        let plen = f.payload().len();
        let bytes = f.into_bytes(seq);
        c.nontrivial();
        // every truncation is refused
        let cuts: Vec<usize> = if bytes.len() <= 200 { (0..bytes.len()).collect() } else { (0..60).map(|_| rng.below(bytes.len())).chain([23, 24, 25, bytes.len() - 1]).collect() };
        for n in cuts {
            vp_ensure!(FrameHeader::decode_from(&bytes[..n]).is_err(), "cut to {n} of {} bytes accepted", bytes.len());
        }
        // every damaged field is refused: magic, version, unknown kind, zero sequence, checksum, payload
        for i in (0..6).chain(20..24) {
            for bit in 0..8 {
                let mut b = bytes.clone();
                b[i] ^= 1 << bit;
                vp_ensure!(FrameHeader::decode_from(&b).is_err(), "header byte {i} bit {bit} damaged but accepted");
            }
        }
        let step = if bytes.len() < 80 && rng.chance(1, 8) { 1 } else { 1 + rng.below(400) };
        let mut b = bytes.clone();
        for kind in (6..=u16::MAX).step_by(step) {
            b[6..8].copy_from_slice(&kind.to_le_bytes());
            vp_ensure!(FrameHeader::decode_from(&b).is_err(), "kind {kind} accepted");
        }
        let mut b = bytes.clone();
        b[8..16].fill(0);
        vp_ensure!(FrameHeader::decode_from(&b).is_err(), "sequence 0 accepted");
        if plen > 0 {
            for _ in 0..8 {
                let mut b = bytes.clone();
                let at = FRAME_HEADER_SIZE + rng.below(plen);
                b[at] ^= 1 << rng.below(8);
                vp_ensure!(FrameHeader::decode_from(&b).is_err(), "payload byte {at} damaged but accepted");
            }
        }
        // a wrong length is refused
        for d in [1i64, -1, 7, 1 << 20] {
            let l = plen as i64 + d;
            if l < 0 { continue; }
            let mut b = bytes.clone();
            b[16..20].copy_from_slice(&(l as u32).to_le_bytes());
            vp_ensure!(FrameHeader::decode_from(&b).is_err(), "length {l} instead of {plen} accepted");
        }
        Ok(())
    });
}

#[test]
fn payload_shape_refused() {
    cases("c01::payload_shape_refused", 300, |rng, c| {
        let kinds = [FrameType::TxnBegin, FrameType::TxnAppend, FrameType::TxnCommit, FrameType::TxnAbort, FrameType::SealMarker, FrameType::TypedAppend];
        let k = *rng.pick(&kinds);
        let n = rng.below(40);
        let p: Vec<u8> = (0..n).map(|_| rng.next() as u8).collect();
        c.log(format!("{k:?} {p:?}"));
        c.nontrivial();
        let ok = decode_frame(k, &p).is_ok();
        let may = match k {
            FrameType::TxnBegin | FrameType::TxnAbort => n == 8,
            FrameType::TxnCommit => n == 16,
            FrameType::SealMarker => n == 0,
            FrameType::TxnAppend | FrameType::TypedAppend => false,
        };
        vp_ensure!(ok == may, "payload of {n} bytes for {k:?}: accepted={ok}");
        // mode and row-mode bytes outside their range
        let b = rand_batch(rng, None);
        let col: ArrayRef = Arc::new(UInt64Array::from(vec![5u64; b.num_rows()]));
        let f = encode_command(WalCommand::TxnAppend { provisional_id: 3, payload: DynBatchPayload::Row { batch: b, commit_ts_column: col } })
            .map_err(|e| format!("{e:?}"))?.remove(0);
        for (i, v) in [(8usize, 1u8), (8, 2), (8, 255), (9, 2), (9, 3), (9, 255)] {
            let mut p = f.payload().to_vec();
            p[i] = v;
            vp_ensure!(decode_frame(FrameType::TxnAppend, &p).is_err(), "append payload byte {i}={v} accepted");
        }
        let p = f.payload();
        for n in [0usize, 8, 15, 16, p.len() / 2] {
            vp_ensure!(decode_frame(FrameType::TxnAppend, &p[..n]).is_err(), "append payload cut to {n} accepted");
        }
        Ok(())
    });
}
