//! Writes codegen.rs, the stand-in for the table that the real build script downloads (same names, same
//! kind of map). The values are those of `published.txt`: the crate's own table at the commit this
//! machinery was written for, which is what the published file holds. If the table of the current tree is
//! written in another form altogether (names of variants, numbering), its own values are taken instead,
//! as a new published file would be generated from it.

use std::{collections::BTreeMap, env, fmt::Write as _, fs, path::PathBuf};

use phf_shared::{displace, hash, HashKey};

fn text<K: ToString, V: std::fmt::Debug>(m: impl Iterator<Item = (K, V)>) -> BTreeMap<i32, String> {
    m.map(|(k, v)| (k.to_string().parse().expect("key"), format!("{v:?}"))).collect()
}

/// Compress, hash and displace.
fn phf(keys: &[i32]) -> (HashKey, Vec<(u32, u32)>, Vec<usize>) {
    'key: for key in 1u64.. {
        let hs: Vec<_> = keys.iter().map(|k| hash(k, &key)).collect();
        let buckets_len = (keys.len() + 4) / 5;
        let mut buckets: Vec<(usize, Vec<usize>)> = (0..buckets_len).map(|i| (i, vec![])).collect();
        for (i, h) in hs.iter().enumerate() {
            buckets[h.g as usize % buckets_len].1.push(i);
        }
        buckets.sort_by_key(|b| (std::cmp::Reverse(b.1.len()), b.0));
        let n = keys.len();
        let mut map: Vec<Option<usize>> = vec![None; n];
        let mut disps = vec![(0, 0); buckets_len];
        'bucket: for (b, ks) in &buckets {
            for d1 in 0..n as u32 {
                for d2 in 0..64.min(n as u32) {
                    let at: Vec<usize> = ks.iter().map(|&i| displace(hs[i].f1, hs[i].f2, d1, d2) as usize % n).collect();
                    let free = at.iter().enumerate().all(|(i, p)| map[*p].is_none() && !at[..i].contains(p));
                    if free {
                        for (p, i) in at.iter().zip(ks) {
                            map[*p] = Some(*i);
                        }
                        disps[*b] = (d1, d2);
                        continue 'bucket;
                    }
                }
            }
            continue 'key;
        }
        return (key, disps, map.into_iter().map(|x| x.expect("full")).collect());
    }
    unreachable!()
}

fn emit(out: &mut String, name: &str, t: &BTreeMap<i32, String>) {
    let keys: Vec<i32> = t.keys().copied().collect();
    let (key, disps, order) = phf(&keys);
    writeln!(out, "pub static {name}: ::phf::Map<i32, Meta> = ::phf::Map {{ key: {key}, disps: &{disps:?}, entries: &[").unwrap();
    for i in order {
        writeln!(out, "({}, {}),", keys[i], t[&keys[i]]).unwrap();
    }
    out.push_str("] };\n");
}

fn main() {
    println!("cargo:rerun-if-changed=../table/build.rs");
    println!("cargo:rerun-if-changed=../table/published.txt");
    let own = poker::evaluate::lookup_table::LookupTable::new();
    let own = [text(own.flush_lookup.iter()), text(own.unsuited_lookup.iter())];
    let out = PathBuf::from(env::var("OUT_DIR").unwrap());
    let dump: String = own.iter().enumerate().flat_map(|(i, t)| t.iter().map(move |(k, v)| format!("{i}\t{k}\t{v}\n"))).collect();
    fs::write(out.join("own.txt"), &dump).unwrap();
    let mut published = [BTreeMap::new(), BTreeMap::new()];
    let file = PathBuf::from(env::var("CARGO_MANIFEST_DIR").unwrap()).join("../table/published.txt");
    for l in fs::read_to_string(file).unwrap_or_default().lines() {
        let mut w = l.splitn(3, '\t');
        let t: usize = w.next().unwrap().parse().unwrap();
        let k: i32 = w.next().unwrap().parse().unwrap();
        published[t].insert(k, w.next().unwrap().to_string());
    }
    let same: usize = (0..2).map(|t| own[t].iter().filter(|(k, v)| published[t].get(k) == Some(v)).count()).sum();
    let use_published = same * 2 > own[0].len() + own[1].len();
    let table = if use_published { &published } else { &own };
    let mut code = String::from(
        "#[allow(unused_imports)] use crate::card::Rank::*;\n#[allow(unused_imports)] use crate::evaluate::{hand_rank::PokerHandRank, meta::Meta::{self, *}};\n",
    );
    emit(&mut code, "FLUSH_LOOKUP", &table[0]);
    emit(&mut code, "UNSUITED_LOOKUP", &table[1]);
    fs::write(out.join("codegen.rs"), code).unwrap();
}
