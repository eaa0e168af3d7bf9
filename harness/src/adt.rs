//! P04 (scoped map), P07 and P08 (graph).
use crate::rng::*; use crate::{desc, Case, R};
use layout::adt::dag::{NodeHandle, DAG};
use layout::adt::map::ScopedMap;
use std::collections::HashMap;

pub fn p04(c: &mut Case) -> R {
    let mut m: ScopedMap<String, usize> = ScopedMap::new();
    let mut model: Vec<HashMap<String, usize>> = vec![];
    let steps = 3 + c.r.k(4 + 6 * c.size);
    let wide = c.r.chance(1, 6);
    let nk = if wide { 8 + c.r.n(40) } else { 1 + c.r.n(5) };
    let steps = if wide { steps + 3 * nk } else { steps };
    let mut log = String::new(); let mut val = 0;
    for _ in 0..steps {
        let k = format!("k{}", c.r.n(nk));
        match if wide { [0, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3][c.r.n(33)] } else { c.r.n(6) } {
            0 | 1 => { m.push(); model.push(HashMap::new()); log.push_str("push; "); }
            2 => { m.pop(); model.pop(); log.push_str("pop; "); }
            _ => { if model.is_empty() { continue } val += 1; let v = if c.r.chance(1, 5) { 1 } else { val }; m.insert(&k, &v); model.last_mut().unwrap().insert(k.clone(), v); log.push_str(&format!("insert({},{}); ", k, v)); }
        }
        let exp = |k: &str| model.iter().rev().find_map(|s| s.get(k).copied());
        let bad = |what: &str| Err::<(), String>(format!("{} after: {}", what, log));
        if m.len() != model.len() || m.is_empty() != model.is_empty() { bad("len/is_empty")?; }
        let flat = m.flatten();
        for i in 0..nk + 1 {
            let k = format!("k{}", i);
            if m.get(&k) != exp(&k) { bad(&format!("get({}) = {:?}, expected {:?}", k, m.get(&k), exp(&k)))?; }
            if m.has(&k) != exp(&k).is_some() { bad("has")?; }
            if flat.get(&k).copied() != exp(&k) { bad(&format!("flatten()[{}] = {:?}, expected {:?}", k, flat.get(&k), exp(&k)))?; }
        }
        if flat.keys().any(|k| exp(k).is_none()) { bad("flatten has an extra key")?; }
    }
    desc(|| log.clone());
    Ok(if val > 1 { Some(hash(&log)) } else { None })
}

#[derive(Clone, Debug, Default)]
struct M { succ: Vec<Vec<usize>>, pred: Vec<Vec<usize>>, ranks: Vec<Vec<usize>> }
fn hs(v: &[NodeHandle]) -> Vec<usize> { v.iter().map(|x| x.get_index()).collect() }
fn h(i: usize) -> NodeHandle { NodeHandle::new(i) }
fn removed_one(old: &[usize], new: &[usize], x: usize) -> bool { (0..old.len()).any(|i| old[i] == x && { let mut o = old.to_vec(); o.remove(i); o == new }) }
pub fn longest(succ: &[Vec<usize>]) -> Option<Vec<usize>> {
    let n = succ.len(); let mut indeg = vec![0; n];
    for a in 0..n { for &b in &succ[a] { if a != b { indeg[b] += 1 } } }
    let mut lv = vec![0; n]; let mut q: Vec<usize> = (0..n).filter(|&i| indeg[i] == 0).collect(); let mut k = 0;
    while k < q.len() { let a = q[k]; k += 1; for &b in &succ[a] { if a != b { lv[b] = lv[b].max(lv[a] + 1); indeg[b] -= 1; if indeg[b] == 0 { q.push(b) } } } }
    if q.len() == n { Some(lv) } else { None }
}
pub fn p07(c: &mut Case) -> R {
    let mut g = DAG::new(); g.set_validate(false);
    let mut m = M::default(); let mut log = String::new();
    let steps = 3 + c.r.k(6 + 6 * c.size).min(700);
    for _ in 0..steps {
        let n = m.succ.len(); let before = m.clone();
        match c.r.n(11) {
            0 | 1 => { let r = g.new_node(); if r.get_index() != n { return Err(format!("new_node returned {} expected {}", r.get_index(), n)) } m.succ.push(vec![]); m.pred.push(vec![]); if m.ranks.is_empty() { m.ranks.push(vec![]) } m.ranks[0].push(n); log.push_str("new_node; "); }
            2 => { let k = c.r.n(4); g.new_nodes(k); for i in 0..k { m.succ.push(vec![]); m.pred.push(vec![]); if m.ranks.is_empty() { m.ranks.push(vec![]) } m.ranks[0].push(n + i); } log.push_str(&format!("new_nodes({}); ", k)); }
            3 | 4 | 5 => { if n == 0 { continue } let (a, b) = (c.r.n(n), c.r.n(n)); g.add_edge(h(a), h(b)); m.succ[a].push(b); m.pred[b].push(a); log.push_str(&format!("add_edge({},{}); ", a, b)); }
            6 | 7 => {
                if n == 0 { continue } let a = c.r.n(n); let b = if !m.succ[a].is_empty() && c.r.chance(3, 4) { *c.r.pick(&m.succ[a]) } else { c.r.n(n) };
                log.push_str(&format!("remove_edge({},{}); ", a, b));
                let r = g.remove_edge(h(a), h(b)); let had = m.succ[a].contains(&b);
                if r != had { return Err(format!("remove_edge returned {} after: {}", r, log)) }
                if had {
                    let (s, p) = (hs(g.successors(h(a))), hs(g.predecessors(h(b))));
                    if !removed_one(&m.succ[a], &s, b) || !removed_one(&m.pred[b], &p, a) { return Err(format!("remove_edge changed more than one occurrence: successors {:?} -> {:?}, predecessors {:?} -> {:?} after: {}", m.succ[a], s, m.pred[b], p, log)) }
                    m.succ[a] = s; m.pred[b] = p;
                }
            }
            8 | 9 => {
                if n == 0 { continue } let a = c.r.n(n); let lv = c.r.n(m.ranks.len() + 2);
                let mut rest = m.ranks.clone(); for row in rest.iter_mut() { row.retain(|x| *x != a) }
                let mark = if lv < rest.len() && !rest[lv].is_empty() && c.r.chance(1, 2) { Some(*c.r.pick(&rest[lv])) } else { None };
                log.push_str(&format!("update_node_rank_level({},{},{:?}); ", a, lv, mark));
                g.update_node_rank_level(h(a), lv, mark.map(h));
                while rest.len() < lv + 1 { rest.push(vec![]) }
                let i = match mark { Some(x) => rest[lv].iter().position(|y| *y == x).unwrap(), None => rest[lv].len() };
                rest[lv].insert(i, a); m.ranks = rest;
            }
            _ => {
                if n == 0 { continue }
                if let Some(lv) = longest(&m.succ) {
                    log.push_str("recompute_node_ranks; "); g.recompute_node_ranks();
                    let got: Vec<Vec<usize>> = g.ranks().iter().map(|r| hs(r)).collect();
                    let mut all: Vec<usize> = got.concat(); all.sort();
                    if all != (0..n).collect::<Vec<_>>() { return Err(format!("ranks are not a partition: {:?} after: {}", got, log)) }
                    for (l, row) in got.iter().enumerate() { for &x in row { if lv[x] != l { return Err(format!("node {} on level {} expected {} after: {}", x, l, lv[x], log)) } } }
                    m.ranks = got;
                }
            }
        }
        let n = m.succ.len();
        let bad = |w: String| Err::<(), String>(format!("{} after: {} (before the last step: {:?})", w, log, before));
        if g.len() != n || g.is_empty() != (n == 0) || g.iter().map(|x| x.get_index()).collect::<Vec<_>>() != (0..n).collect::<Vec<_>>() { bad("len/iter".into())?; }
        let ranks: Vec<Vec<usize>> = g.ranks().iter().map(|r| hs(r)).collect();
        if ranks != m.ranks || g.num_levels() != m.ranks.len() { bad(format!("ranks {:?} expected {:?}", ranks, m.ranks))?; }
        for i in 0..n {
            if hs(g.successors(h(i))) != m.succ[i] { bad(format!("successors({}) = {:?} expected {:?}", i, hs(g.successors(h(i))), m.succ[i]))?; }
            if hs(g.predecessors(h(i))) != m.pred[i] { bad(format!("predecessors({}) = {:?} expected {:?}", i, hs(g.predecessors(h(i))), m.pred[i]))?; }
            if g.single_succ(h(i)).map(|x| x.get_index()) != if m.succ[i].len() == 1 { Some(m.succ[i][0]) } else { None } { bad(format!("single_succ({})", i))?; }
            if g.single_pred(h(i)).map(|x| x.get_index()) != if m.pred[i].len() == 1 { Some(m.pred[i][0]) } else { None } { bad(format!("single_pred({})", i))?; }
            let lv = m.ranks.iter().position(|r| r.contains(&i)).unwrap();
            if g.level(h(i)) != lv { bad(format!("level({}) = {} expected {}", i, g.level(h(i)), lv))?; }
            for l in 0..m.ranks.len() + 1 {
                if g.is_first_in_row(h(i), l) != (l < m.ranks.len() && m.ranks[l].first() == Some(&i)) || g.is_last_in_row(h(i), l) != (l < m.ranks.len() && m.ranks[l].last() == Some(&i)) { bad(format!("is_first/last_in_row({},{})", i, l))?; }
            }
        }
        for l in 0..m.ranks.len() { if hs(g.row(l)) != m.ranks[l] { bad("row".into())?; } }
    }
    desc(|| log.clone());
    Ok(if m.succ.len() > 1 { Some(hash(&log)) } else { None })
}
pub fn p08(c: &mut Case) -> R {
    // all directed graphs on 3 nodes, then random ones
    let (n, es): (usize, Vec<(usize, usize)>) = if c.idx < 512 { (3, (0..9).filter(|b| c.idx >> b & 1 == 1).map(|b| (b / 3, b % 3)).collect()) }
        else if c.r.chance(1, 300) { let n = 40; (n, (0..n).flat_map(|i| (i + 1..n).map(move |j| (i, j))).collect()) }
        else { let n = 1 + c.r.n(3 + c.size); let mut v = crate::gen::pairs(&mut c.r, n); if c.r.chance(1, 2) { for e in v.iter_mut() { if e.0 > e.1 { *e = (e.1, e.0) } } let mut p: Vec<usize> = (0..n).collect(); for i in (1..n).rev() { p.swap(i, c.r.n(i + 1)); } for e in v.iter_mut() { *e = (p[e.0], p[e.1]) } } (n, v) };
    desc(|| format!("{} nodes, edges {:?}", n, es));
    let mut g = DAG::new(); for _ in 0..n { g.new_node(); }
    let mut succ = vec![vec![]; n];
    let cut = if c.r.chance(1, 2) { es.len() } else { c.r.n(es.len() + 1) };
    for (i, &(a, b)) in es.iter().enumerate() {
        // the levels may have been computed before the last edges came
        if i == cut && longest(&succ).is_some() { g.recompute_node_ranks(); }
        g.add_edge(h(a), h(b)); succ[a].push(b);
    }
    for s in 0..n {
        let mut seen = vec![false; n]; let mut q = vec![s]; seen[s] = true;
        while let Some(x) = q.pop() { for &y in &succ[x] { if !seen[y] { seen[y] = true; q.push(y) } } }
        for t in 0..n { if g.is_reachable(h(s), h(t)) != seen[t] { return Err(format!("is_reachable({},{}) = {} expected {}", s, t, !seen[t], seen[t])) } }
    }
    if let Some(lv) = longest(&succ) {
        g.verify();
        g.recompute_node_ranks();
        let mut seen = vec![0; n];
        for (l, row) in g.ranks().iter().enumerate() { for x in row { seen[x.get_index()] += 1; if lv[x.get_index()] != l { return Err(format!("node {} is on level {} expected {}", x.get_index(), l, lv[x.get_index()])) } } }
        if seen.iter().any(|x| *x != 1) { return Err(format!("ranks are not a partition: {:?}", g.ranks())) }
        if g.num_levels() != lv.iter().max().unwrap() + 1 { return Err("number of levels".into()) }
        for (a, b) in es.iter() { if a != b && g.level(h(*a)) >= g.level(h(*b)) { return Err("edge does not lead to a later level".into()) } }
        g.verify();
    }
    Ok(if es.is_empty() { None } else { Some(hash(&format!("{} {:?}", n, es))) })
}
