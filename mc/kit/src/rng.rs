//! Enumeration helpers.

/// All sequences over `0..k` with length `0..=n`, shortest first.
pub fn sequences(k: usize, n: usize, mut f: impl FnMut(&[usize])) {
    let mut cur = Vec::new();
    for len in 0..=n {
        cur.clear();
        cur.resize(len, 0);
        if len > 0 && k == 0 {
            return;
        }
        loop {
            f(&cur);
            let mut i = len;
            loop {
                if i == 0 {
                    break;
                }
                i -= 1;
                cur[i] += 1;
                if cur[i] < k {
                    break;
                }
                cur[i] = 0;
                if i == 0 {
                    i = usize::MAX;
                    break;
                }
            }
            if len == 0 || i == usize::MAX {
                break;
            }
        }
    }
}

/// All permutations of `0..n`.
pub fn permutations(n: usize, mut f: impl FnMut(&[usize])) {
    fn go(cur: &mut Vec<usize>, used: &mut Vec<bool>, n: usize, f: &mut dyn FnMut(&[usize])) {
        if cur.len() == n {
            f(cur);
            return;
        }
        for i in 0..n {
            if !used[i] {
                used[i] = true;
                cur.push(i);
                go(cur, used, n, f);
                cur.pop();
                used[i] = false;
            }
        }
    }
    go(&mut Vec::new(), &mut vec![false; n], n, &mut f);
}

/// Cartesian product of index ranges.
pub fn product(dims: &[usize], mut f: impl FnMut(&[usize])) {
    if dims.iter().any(|&d| d == 0) {
        return;
    }
    let mut cur = vec![0; dims.len()];
    loop {
        f(&cur);
        let mut i = dims.len();
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            cur[i] += 1;
            if cur[i] < dims[i] {
                break;
            }
            cur[i] = 0;
        }
    }
}

#[cfg(test)]
mod tests {
    #[test]
    fn seqs() {
        let mut n = 0;
        super::sequences(3, 3, |_| n += 1);
        assert_eq!(n, 1 + 3 + 9 + 27);
        n = 0;
        super::permutations(4, |_| n += 1);
        assert_eq!(n, 24);
        n = 0;
        super::product(&[2, 3, 4], |_| n += 1);
        assert_eq!(n, 24);
    }
}
