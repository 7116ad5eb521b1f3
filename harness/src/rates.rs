//! Reference for conversion rates: which rates are acceptable, from all the price paths of least
//! elapsed time.
use chrono::NaiveDate;
use num::{BigRational, One};
use std::collections::{BTreeMap, BTreeSet};

pub type Q = BigRational;

#[derive(Clone, Debug)]
pub struct P {
    pub date: NaiveDate,
    /// one of `a` is worth `q` of `b`
    pub a: String,
    pub b: String,
    pub q: Q,
}

/// For each way to break ties between prices of the same pair and day: the acceptable rates of every
/// commodity which can be reached. None when there are too many possibilities.
pub fn rates(target: &str, date: NaiveDate, prices: &[P]) -> Option<Vec<BTreeMap<String, Vec<Q>>>> {
    // the most recent prices of each pair
    let mut latest: BTreeMap<(String, String), (NaiveDate, Vec<Q>)> = BTreeMap::new();
    for p in prices {
        if p.date > date || p.a == p.b {
            continue;
        }
        let (key, q) = if p.a < p.b {
            ((p.a.clone(), p.b.clone()), p.q.clone())
        } else {
            ((p.b.clone(), p.a.clone()), p.q.recip())
        };
        let e = latest.entry(key).or_insert((p.date, vec![]));
        if p.date > e.0 {
            *e = (p.date, vec![]);
        }
        if p.date == e.0 && !e.1.contains(&q) {
            e.1.push(q);
        }
    }
    let n: usize = latest.values().map(|x| x.1.len()).product();
    if n > 24 {
        return None;
    }
    let mut res = vec![];
    for k in 0..n {
        let mut k = k;
        let mut chosen = vec![];
        for ((a, b), (d, qs)) in &latest {
            chosen.push((a.clone(), b.clone(), *d, qs[k % qs.len()].clone()));
            k /= qs.len();
        }
        res.push(one(target, date, &chosen)?);
    }
    Some(res)
}

fn one(target: &str, date: NaiveDate, prices: &[(String, String, NaiveDate, Q)]) -> Option<BTreeMap<String, Vec<Q>>> {
    let mut nodes: BTreeSet<(String, NaiveDate)> = BTreeSet::new();
    nodes.insert((target.to_string(), date));
    for (a, b, d, _) in prices {
        nodes.insert((a.clone(), *d));
        nodes.insert((b.clone(), *d));
    }
    let nodes: Vec<(String, NaiveDate)> = nodes.into_iter().collect();
    let idx = |c: &str, d: NaiveDate| nodes.iter().position(|x| x.0 == c && x.1 == d).unwrap();
    // edges u -> v: length, and what one unit of v's commodity is worth in u's
    let mut edges: Vec<Vec<(usize, i64, Q)>> = vec![vec![]; nodes.len()];
    for (a, b, d, q) in prices {
        let (u, v) = (idx(a, *d), idx(b, *d));
        edges[u].push((v, 0, q.recip()));
        edges[v].push((u, 0, q.clone()));
    }
    for u in 0..nodes.len() {
        for v in 0..nodes.len() {
            if u != v && nodes[u].0 == nodes[v].0 {
                edges[u].push((v, (nodes[u].1 - nodes[v].1).num_days().abs(), Q::one()));
            }
        }
    }
    let source = idx(target, date);
    let mut dist: Vec<Option<i64>> = vec![None; nodes.len()];
    dist[source] = Some(0);
    for _ in 0..nodes.len() {
        for u in 0..nodes.len() {
            if let Some(d) = dist[u] {
                for (v, l, _) in &edges[u] {
                    if dist[*v].map_or(true, |x| d + l < x) {
                        dist[*v] = Some(d + l);
                    }
                }
            }
        }
    }
    // all the paths along tight edges
    let mut found: Vec<BTreeSet<Q>> = vec![BTreeSet::new(); nodes.len()];
    let mut budget = 20_000usize;
    let mut on = vec![false; nodes.len()];
    fn walk(
        u: usize,
        rate: Q,
        edges: &Vec<Vec<(usize, i64, Q)>>,
        dist: &Vec<Option<i64>>,
        on: &mut Vec<bool>,
        found: &mut Vec<BTreeSet<Q>>,
        budget: &mut usize,
    ) -> bool {
        if *budget == 0 {
            return false;
        }
        *budget -= 1;
        found[u].insert(rate.clone());
        on[u] = true;
        for (v, l, q) in &edges[u] {
            if on[*v] || dist[u].unwrap() + l != dist[*v].unwrap() {
                continue;
            }
            if !walk(*v, &rate * q, edges, dist, on, found, budget) {
                return false;
            }
        }
        on[u] = false;
        true
    }
    if !walk(source, Q::one(), &edges, &dist, &mut on, &mut found, &mut budget) {
        return None;
    }
    // a commodity is valued where its most recent price is
    let mut r: BTreeMap<String, Vec<Q>> = BTreeMap::new();
    for (k, (c, _)) in nodes.iter().enumerate() {
        if c != target && dist[k].is_some() {
            // nodes are in order of date
            r.insert(c.clone(), found[k].iter().cloned().collect());
        }
    }
    Some(r)
}
