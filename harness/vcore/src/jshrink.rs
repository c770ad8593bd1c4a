//! Minimization of a failing case on its JSON form: drop elements of arrays and
//! move integers towards zero as long as the case still fails.
use serde_json::{Number, Value};

/// All the paths of the arrays and integers of a value.
fn paths(v: &Value, cur: &mut Vec<Step>, arrays: &mut Vec<Vec<Step>>, ints: &mut Vec<Vec<Step>>) {
    match v {
        Value::Array(a) => {
            arrays.push(cur.clone());
            for (i, x) in a.iter().enumerate() {
                cur.push(Step::I(i));
                paths(x, cur, arrays, ints);
                cur.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                cur.push(Step::K(k.clone()));
                paths(x, cur, arrays, ints);
                cur.pop();
            }
        }
        Value::Number(n) if n.is_i64() || n.is_u64() => ints.push(cur.clone()),
        _ => {}
    }
}

#[derive(Clone)]
enum Step {
    I(usize),
    K(String),
}

fn at<'a>(v: &'a mut Value, p: &[Step]) -> Option<&'a mut Value> {
    let mut v = v;
    for s in p {
        v = match s {
            Step::I(i) => v.as_array_mut()?.get_mut(*i)?,
            Step::K(k) => v.as_object_mut()?.get_mut(k)?,
        };
    }
    Some(v)
}

/// `fails` must be true for `v`; the result also fails. At most `budget` evaluations.
pub fn minimize(v: Value, mut budget: usize, mut fails: impl FnMut(&Value) -> bool) -> Value {
    let mut best = v;
    loop {
        let mut progress = false;
        // Arrays: remove big chunks first, then single elements
        let (mut arrays, mut ints) = (vec![], vec![]);
        paths(&best, &mut vec![], &mut arrays, &mut ints);
        arrays.sort_by_key(|p| p.len());
        for p in &arrays {
            let Some(len) = at(&mut best, p).and_then(|x| x.as_array().map(|a| a.len())) else {
                continue;
            };
            let mut chunk = len.max(1);
            while chunk >= 1 {
                let mut start = 0;
                loop {
                    let Some(n) = at(&mut best, p).and_then(|x| x.as_array().map(|a| a.len()))
                    else {
                        break;
                    };
                    if start >= n {
                        break;
                    }
                    if budget == 0 {
                        return best;
                    }
                    let mut cand = best.clone();
                    at(&mut cand, p)
                        .unwrap()
                        .as_array_mut()
                        .unwrap()
                        .drain(start..(start + chunk).min(n));
                    budget -= 1;
                    if fails(&cand) {
                        best = cand;
                        progress = true;
                    } else {
                        start += chunk;
                    }
                }
                chunk /= 2;
            }
        }
        ints.clear();
        paths(&best, &mut vec![], &mut vec![], &mut ints);
        for p in &ints {
            let Some(x) = at(&mut best, p).cloned() else {
                continue;
            };
            let cands: Vec<Number> = if let Some(i) = x.as_i64() {
                let mut c = vec![];
                for y in [0, 1, -1, i / 2, i - i.signum()] {
                    if y != i && y.unsigned_abs() <= i.unsigned_abs() && !(y < 0 && i > 0)
                        && !(i.unsigned_abs() <= 1 && y.unsigned_abs() >= i.unsigned_abs() && i >= 0)
                    {
                        c.push(Number::from(y));
                    }
                }
                c
            } else if let Some(u) = x.as_u64() {
                vec![Number::from(0), Number::from(1), Number::from(u / 2), Number::from(u & (u - 1))]
            } else {
                vec![]
            };
            for n in cands {
                if budget == 0 {
                    return best;
                }
                let mut cand = best.clone();
                *at(&mut cand, p).unwrap() = Value::Number(n);
                budget -= 1;
                if fails(&cand) {
                    best = cand;
                    progress = true;
                    break;
                }
            }
        }
        if !progress {
            return best;
        }
    }
}
