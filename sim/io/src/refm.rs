//! The reference table of a recording and the reader side of the oracle.
use crate::dev::cov;
use crate::scen::{column, Met, Meta, Snap};
use arrow::array::{Array, ArrayRef, Int64Array, ListArray, UInt64Array};
use arrow::datatypes::DataType;
use parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Cell {
    Null,
    U(u64),
    I(i64),
    L(Vec<u64>),
}

#[derive(Clone, Debug)]
pub struct Col {
    pub name: String,
    pub mtype: String,
    pub dt: DataType,
    pub meta: BTreeMap<String, String>,
    pub vals: Vec<Cell>,
}

#[derive(Clone, Debug, Default)]
pub struct Table {
    pub rows: usize,
    pub cols: Vec<Col>,
    pub kv: Vec<(String, String)>,
}

fn cells(a: &ArrayRef, out: &mut Vec<Cell>) -> Result<(), String> {
    match a.data_type() {
        DataType::UInt64 => {
            let v = a.as_any().downcast_ref::<UInt64Array>().unwrap();
            out.extend((0..v.len()).map(|i| if v.is_null(i) { Cell::Null } else { Cell::U(v.value(i)) }));
        }
        DataType::Int64 => {
            let v = a.as_any().downcast_ref::<Int64Array>().unwrap();
            out.extend((0..v.len()).map(|i| if v.is_null(i) { Cell::Null } else { Cell::I(v.value(i)) }));
        }
        DataType::List(_) => {
            let v = a.as_any().downcast_ref::<ListArray>().unwrap();
            for i in 0..v.len() {
                if v.is_null(i) {
                    out.push(Cell::Null);
                    continue;
                }
                let e = v.value(i);
                let e = e.as_any().downcast_ref::<UInt64Array>().ok_or("list of another type")?;
                if e.null_count() != 0 {
                    return Err("null list element".into());
                }
                out.push(Cell::L(e.values().to_vec()));
            }
        }
        t => return Err(format!("column of type {t}")),
    }
    Ok(())
}

/// What a parquet reader makes of these bytes; a reader panic is a rejection.
pub fn read_table(b: &[u8]) -> Result<Table, String> {
    let b = bytes::Bytes::copy_from_slice(b);
    let r = std::panic::catch_unwind(move || -> Result<Table, String> {
        let bld = ParquetRecordBatchReaderBuilder::try_new(b).map_err(|e| e.to_string())?;
        let mut t = Table::default();
        let fm = bld.metadata().file_metadata().clone();
        for kv in fm.key_value_metadata().into_iter().flatten() {
            if kv.key != "ARROW:schema" {
                t.kv.push((kv.key.clone(), kv.value.clone().unwrap_or_default()));
            }
        }
        t.kv.sort();
        for f in bld.schema().fields() {
            let meta: BTreeMap<String, String> = f.metadata().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            t.cols.push(Col { name: f.name().clone(), mtype: meta.get("metric_type").cloned().unwrap_or_default(), dt: f.data_type().clone(), meta, vals: vec![] });
        }
        for batch in bld.with_batch_size(1024).build().map_err(|e| e.to_string())? {
            let batch = batch.map_err(|e| e.to_string())?;
            t.rows += batch.num_rows();
            for (i, c) in batch.columns().iter().enumerate() {
                cells(c, &mut t.cols[i].vals)?;
            }
        }
        if fm.num_rows() as usize != t.rows {
            return Err(format!("footer says {} rows, data has {}", fm.num_rows(), t.rows));
        }
        Ok(t)
    });
    r.unwrap_or_else(|_| Err("the reader panicked".into()))
}

/// The compression used, and the rows of the largest row group.
pub fn layout(b: &[u8]) -> Result<(Vec<String>, i64), String> {
    let b = ParquetRecordBatchReaderBuilder::try_new(bytes::Bytes::copy_from_slice(b)).map_err(|e| e.to_string())?;
    let g = b.metadata().row_groups();
    let mut c: Vec<String> = g.iter().flat_map(|g| g.columns()).map(|c| c.compression().to_string()).collect();
    c.sort();
    c.dedup();
    Ok((c, g.iter().map(|g| g.num_rows()).max().unwrap_or(0)))
}

fn ns(t: (u64, u32)) -> u64 {
    (t.0 as u128 * 1_000_000_000 + t.1 as u128) as u64
}

fn find<'a>(t: &'a Table, names: &[String], suffix: &str, mtype: &str) -> Result<&'a Col, String> {
    let c: Vec<&Col> = t.cols.iter().filter(|c| c.mtype == mtype && names.iter().any(|n| c.name.strip_suffix(suffix).is_some_and(|x| x == n))).collect();
    match c.len() {
        1 => Ok(c[0]),
        n => Err(format!("{n} {mtype} columns named {:?}{suffix} instead of one; columns are {:?}", names[0], t.cols.iter().map(|c| &c.name).collect::<Vec<_>>())),
    }
}

fn is_list(d: &DataType) -> bool {
    matches!(d, DataType::List(f) if f.data_type() == &DataType::UInt64)
}

/// The table must be exactly what these snapshots say.
pub fn matches(t: &Table, snaps: &[Snap], sparse: bool, cmeta: &Meta) -> Result<(), String> {
    if t.rows != snaps.len() {
        return Err(format!("{} rows for {} snapshots", t.rows, snaps.len()));
    }
    let one = |name: &str| -> Result<&Col, String> {
        let c: Vec<&Col> = t.cols.iter().filter(|c| c.name == name && !["counter", "gauge", "histogram", "sparse_histogram"].contains(&c.mtype.as_str())).collect();
        if c.len() != 1 || c[0].dt != DataType::UInt64 {
            return Err(format!("{} unsigned {name} columns instead of one", c.len()));
        }
        for (k, v) in [("metric_type", name), ("unit", "nanoseconds")] {
            if c[0].meta.get(k).map(|x| x.as_str()) != Some(v) {
                return Err(format!("the {name} column has metadata {:?}", c[0].meta));
            }
        }
        Ok(c[0])
    };
    let (tc, dc) = (one("timestamp")?, one("duration")?);
    for (i, s) in snaps.iter().enumerate() {
        if tc.vals[i] != Cell::U(ns(s.ts)) {
            return Err(format!("row {i}: timestamp {:?} instead of {}", tc.vals[i], ns(s.ts)));
        }
        let d = if s.v2 { Cell::U(ns(s.dur)) } else { Cell::Null };
        if dc.vals[i] != d {
            return Err(format!("row {i}: duration {:?} instead of {d:?}", dc.vals[i]));
        }
    }
    // metrics
    let mut mets: BTreeMap<(u8, String), (Vec<String>, Vec<Option<&Met>>)> = BTreeMap::new();
    for (i, s) in snaps.iter().enumerate() {
        for m in &s.mets {
            let k = m.kind.min(2);
            let (id, names) = column(m);
            let e = mets.entry((k, id)).or_insert_with(|| (names, vec![None; snaps.len()]));
            e.1[i] = Some(m);
        }
    }
    let mut expect_cols = 2;
    for ((k, _), (names, occ)) in &mets {
        let first = occ.iter().flatten().next().unwrap();
        let check = |suffix: &str, mtype: &str, ty: &dyn Fn(&DataType) -> bool, f: &dyn Fn(&Met) -> Cell| -> Result<(), String> {
            let c = find(t, names, suffix, mtype)?;
            if !ty(&c.dt) {
                return Err(format!("column {:?} has type {}", c.name, c.dt));
            }
            let mut want: BTreeMap<String, String> = first.meta.iter().cloned().collect();
            want.insert("metric_type".into(), mtype.into());
            if c.meta != want {
                return Err(format!("column {:?} has metadata {:?} instead of {want:?}", c.name, c.meta));
            }
            for (i, o) in occ.iter().enumerate() {
                let w = o.map_or(Cell::Null, f);
                if c.vals[i] != w {
                    return Err(format!("row {i}, column {:?}: {:?} instead of {w:?}", c.name, c.vals[i]));
                }
            }
            cov("cells_checked", occ.len() as u64);
            Ok(())
        };
        match (k, sparse) {
            (0, _) => check("", "counter", &|d| d == &DataType::UInt64, &|m| Cell::U(m.v))?,
            (1, _) => check("", "gauge", &|d| d == &DataType::Int64, &|m| Cell::I(m.v as i64))?,
            (_, false) => check(":buckets", "histogram", &is_list, &|m| Cell::L(m.hist().as_slice().to_vec()))?,
            (_, true) => {
                let nz = |m: &Met, idx: bool| Cell::L(m.hist().as_slice().iter().enumerate().filter(|(_, c)| **c != 0).map(|(i, c)| if idx { i as u64 } else { *c }).collect());
                check(":bucket_indices", "sparse_histogram", &is_list, &|m| nz(m, true))?;
                check(":bucket_counts", "sparse_histogram", &is_list, &|m| nz(m, false))?;
                expect_cols += 1;
            }
        }
        expect_cols += 1;
    }
    if t.cols.len() != expect_cols {
        return Err(format!("{} columns instead of {expect_cols}: {:?}", t.cols.len(), t.cols.iter().map(|c| &c.name).collect::<Vec<_>>()));
    }
    // file metadata
    let mut want: BTreeMap<String, String> = snaps.iter().find(|s| !s.meta.is_empty()).map(|s| s.meta.iter().cloned().collect()).unwrap_or_default();
    want.extend(cmeta.iter().cloned());
    let want: Vec<(String, String)> = want.into_iter().collect();
    if t.kv != want {
        return Err(format!("file metadata {:?} instead of {want:?}", t.kv));
    }
    cov("rows_checked", t.rows as u64);
    Ok(())
}
