// generated by tools/gen_lits.py
pub type Lit = (&'static [usize], fn(&mut dyn FnMut() -> u32) -> Matrix<u32>);
pub static LITS: &[Lit] = &[
    (&[1], |n| m!(n())),
    (&[2], |n| m!(n(), n())),
    (&[3], |n| m!(n(), n(), n())),
    (&[4], |n| m!(n(), n(), n(), n())),
    (&[1, 1], |n| m!(n(); n())),
    (&[1, 2], |n| m!(n(); n(), n())),
    (&[1, 3], |n| m!(n(); n(), n(), n())),
    (&[1, 4], |n| m!(n(); n(), n(), n(), n())),
    (&[2, 1], |n| m!(n(), n(); n())),
    (&[2, 2], |n| m!(n(), n(); n(), n())),
    (&[2, 3], |n| m!(n(), n(); n(), n(), n())),
    (&[2, 4], |n| m!(n(), n(); n(), n(), n(), n())),
    (&[3, 1], |n| m!(n(), n(), n(); n())),
    (&[3, 2], |n| m!(n(), n(), n(); n(), n())),
    (&[3, 3], |n| m!(n(), n(), n(); n(), n(), n())),
    (&[3, 4], |n| m!(n(), n(), n(); n(), n(), n(), n())),
    (&[4, 1], |n| m!(n(), n(), n(), n(); n())),
    (&[4, 2], |n| m!(n(), n(), n(), n(); n(), n())),
    (&[4, 3], |n| m!(n(), n(), n(), n(); n(), n(), n())),
    (&[4, 4], |n| m!(n(), n(), n(), n(); n(), n(), n(), n())),
    (&[1, 1, 1], |n| m!(n(); n(); n())),
    (&[1, 1, 2], |n| m!(n(); n(); n(), n())),
    (&[1, 1, 3], |n| m!(n(); n(); n(), n(), n())),
    (&[1, 1, 4], |n| m!(n(); n(); n(), n(), n(), n())),
    (&[1, 2, 1], |n| m!(n(); n(), n(); n())),
    (&[1, 2, 2], |n| m!(n(); n(), n(); n(), n())),
    (&[1, 2, 3], |n| m!(n(); n(), n(); n(), n(), n())),
    (&[1, 2, 4], |n| m!(n(); n(), n(); n(), n(), n(), n())),
    (&[1, 3, 1], |n| m!(n(); n(), n(), n(); n())),
    (&[1, 3, 2], |n| m!(n(); n(), n(), n(); n(), n())),
    (&[1, 3, 3], |n| m!(n(); n(), n(), n(); n(), n(), n())),
    (&[1, 3, 4], |n| m!(n(); n(), n(), n(); n(), n(), n(), n())),
    (&[1, 4, 1], |n| m!(n(); n(), n(), n(), n(); n())),
    (&[1, 4, 2], |n| m!(n(); n(), n(), n(), n(); n(), n())),
    (&[1, 4, 3], |n| m!(n(); n(), n(), n(), n(); n(), n(), n())),
    (&[1, 4, 4], |n| m!(n(); n(), n(), n(), n(); n(), n(), n(), n())),
    (&[2, 1, 1], |n| m!(n(), n(); n(); n())),
    (&[2, 1, 2], |n| m!(n(), n(); n(); n(), n())),
    (&[2, 1, 3], |n| m!(n(), n(); n(); n(), n(), n())),
    (&[2, 1, 4], |n| m!(n(), n(); n(); n(), n(), n(), n())),
    (&[2, 2, 1], |n| m!(n(), n(); n(), n(); n())),
    (&[2, 2, 2], |n| m!(n(), n(); n(), n(); n(), n())),
    (&[2, 2, 3], |n| m!(n(), n(); n(), n(); n(), n(), n())),
    (&[2, 2, 4], |n| m!(n(), n(); n(), n(); n(), n(), n(), n())),
    (&[2, 3, 1], |n| m!(n(), n(); n(), n(), n(); n())),
    (&[2, 3, 2], |n| m!(n(), n(); n(), n(), n(); n(), n())),
    (&[2, 3, 3], |n| m!(n(), n(); n(), n(), n(); n(), n(), n())),
    (&[2, 3, 4], |n| m!(n(), n(); n(), n(), n(); n(), n(), n(), n())),
    (&[2, 4, 1], |n| m!(n(), n(); n(), n(), n(), n(); n())),
    (&[2, 4, 2], |n| m!(n(), n(); n(), n(), n(), n(); n(), n())),
    (&[2, 4, 3], |n| m!(n(), n(); n(), n(), n(), n(); n(), n(), n())),
    (&[2, 4, 4], |n| m!(n(), n(); n(), n(), n(), n(); n(), n(), n(), n())),
    (&[3, 1, 1], |n| m!(n(), n(), n(); n(); n())),
    (&[3, 1, 2], |n| m!(n(), n(), n(); n(); n(), n())),
    (&[3, 1, 3], |n| m!(n(), n(), n(); n(); n(), n(), n())),
    (&[3, 1, 4], |n| m!(n(), n(), n(); n(); n(), n(), n(), n())),
    (&[3, 2, 1], |n| m!(n(), n(), n(); n(), n(); n())),
    (&[3, 2, 2], |n| m!(n(), n(), n(); n(), n(); n(), n())),
    (&[3, 2, 3], |n| m!(n(), n(), n(); n(), n(); n(), n(), n())),
    (&[3, 2, 4], |n| m!(n(), n(), n(); n(), n(); n(), n(), n(), n())),
    (&[3, 3, 1], |n| m!(n(), n(), n(); n(), n(), n(); n())),
    (&[3, 3, 2], |n| m!(n(), n(), n(); n(), n(), n(); n(), n())),
    (&[3, 3, 3], |n| m!(n(), n(), n(); n(), n(), n(); n(), n(), n())),
    (&[3, 3, 4], |n| m!(n(), n(), n(); n(), n(), n(); n(), n(), n(), n())),
    (&[3, 4, 1], |n| m!(n(), n(), n(); n(), n(), n(), n(); n())),
    (&[3, 4, 2], |n| m!(n(), n(), n(); n(), n(), n(), n(); n(), n())),
    (&[3, 4, 3], |n| m!(n(), n(), n(); n(), n(), n(), n(); n(), n(), n())),
    (&[3, 4, 4], |n| m!(n(), n(), n(); n(), n(), n(), n(); n(), n(), n(), n())),
    (&[4, 1, 1], |n| m!(n(), n(), n(), n(); n(); n())),
    (&[4, 1, 2], |n| m!(n(), n(), n(), n(); n(); n(), n())),
    (&[4, 1, 3], |n| m!(n(), n(), n(), n(); n(); n(), n(), n())),
    (&[4, 1, 4], |n| m!(n(), n(), n(), n(); n(); n(), n(), n(), n())),
    (&[4, 2, 1], |n| m!(n(), n(), n(), n(); n(), n(); n())),
    (&[4, 2, 2], |n| m!(n(), n(), n(), n(); n(), n(); n(), n())),
    (&[4, 2, 3], |n| m!(n(), n(), n(), n(); n(), n(); n(), n(), n())),
    (&[4, 2, 4], |n| m!(n(), n(), n(), n(); n(), n(); n(), n(), n(), n())),
    (&[4, 3, 1], |n| m!(n(), n(), n(), n(); n(), n(), n(); n())),
    (&[4, 3, 2], |n| m!(n(), n(), n(), n(); n(), n(), n(); n(), n())),
    (&[4, 3, 3], |n| m!(n(), n(), n(), n(); n(), n(), n(); n(), n(), n())),
    (&[4, 3, 4], |n| m!(n(), n(), n(), n(); n(), n(), n(); n(), n(), n(), n())),
    (&[4, 4, 1], |n| m!(n(), n(), n(), n(); n(), n(), n(), n(); n())),
    (&[4, 4, 2], |n| m!(n(), n(), n(), n(); n(), n(), n(), n(); n(), n())),
    (&[4, 4, 3], |n| m!(n(), n(), n(), n(); n(), n(), n(), n(); n(), n(), n())),
    (&[4, 4, 4], |n| m!(n(), n(), n(), n(); n(), n(), n(), n(); n(), n(), n(), n())),
    (&[1, 1, 1, 1], |n| m!(n(); n(); n(); n())),
    (&[1, 1, 1, 2], |n| m!(n(); n(); n(); n(), n())),
    (&[1, 1, 1, 3], |n| m!(n(); n(); n(); n(), n(), n())),
    (&[1, 1, 1, 4], |n| m!(n(); n(); n(); n(), n(), n(), n())),
    (&[1, 1, 2, 1], |n| m!(n(); n(); n(), n(); n())),
    (&[1, 1, 2, 2], |n| m!(n(); n(); n(), n(); n(), n())),
    (&[1, 1, 2, 3], |n| m!(n(); n(); n(), n(); n(), n(), n())),
    (&[1, 1, 2, 4], |n| m!(n(); n(); n(), n(); n(), n(), n(), n())),
    (&[1, 1, 3, 1], |n| m!(n(); n(); n(), n(), n(); n())),
    (&[1, 1, 3, 2], |n| m!(n(); n(); n(), n(), n(); n(), n())),
    (&[1, 1, 3, 3], |n| m!(n(); n(); n(), n(), n(); n(), n(), n())),
    (&[1, 1, 3, 4], |n| m!(n(); n(); n(), n(), n(); n(), n(), n(), n())),
    (&[1, 1, 4, 1], |n| m!(n(); n(); n(), n(), n(), n(); n())),
    (&[1, 1, 4, 2], |n| m!(n(); n(); n(), n(), n(), n(); n(), n())),
    (&[1, 1, 4, 3], |n| m!(n(); n(); n(), n(), n(), n(); n(), n(), n())),
    (&[1, 1, 4, 4], |n| m!(n(); n(); n(), n(), n(), n(); n(), n(), n(), n())),
    (&[1, 2, 1, 1], |n| m!(n(); n(), n(); n(); n())),
    (&[1, 2, 1, 2], |n| m!(n(); n(), n(); n(); n(), n())),
    (&[1, 2, 1, 3], |n| m!(n(); n(), n(); n(); n(), n(), n())),
    (&[1, 2, 1, 4], |n| m!(n(); n(), n(); n(); n(), n(), n(), n())),
    (&[1, 2, 2, 1], |n| m!(n(); n(), n(); n(), n(); n())),
    (&[1, 2, 2, 2], |n| m!(n(); n(), n(); n(), n(); n(), n())),
    (&[1, 2, 2, 3], |n| m!(n(); n(), n(); n(), n(); n(), n(), n())),
    (&[1, 2, 2, 4], |n| m!(n(); n(), n(); n(), n(); n(), n(), n(), n())),
    (&[1, 2, 3, 1], |n| m!(n(); n(), n(); n(), n(), n(); n())),
    (&[1, 2, 3, 2], |n| m!(n(); n(), n(); n(), n(), n(); n(), n())),
    (&[1, 2, 3, 3], |n| m!(n(); n(), n(); n(), n(), n(); n(), n(), n())),
    (&[1, 2, 3, 4], |n| m!(n(); n(), n(); n(), n(), n(); n(), n(), n(), n())),
    (&[1, 2, 4, 1], |n| m!(n(); n(), n(); n(), n(), n(), n(); n())),
    (&[1, 2, 4, 2], |n| m!(n(); n(), n(); n(), n(), n(), n(); n(), n())),
    (&[1, 2, 4, 3], |n| m!(n(); n(), n(); n(), n(), n(), n(); n(), n(), n())),
    (&[1, 2, 4, 4], |n| m!(n(); n(), n(); n(), n(), n(), n(); n(), n(), n(), n())),
    (&[1, 3, 1, 1], |n| m!(n(); n(), n(), n(); n(); n())),
    (&[1, 3, 1, 2], |n| m!(n(); n(), n(), n(); n(); n(), n())),
    (&[1, 3, 1, 3], |n| m!(n(); n(), n(), n(); n(); n(), n(), n())),
    (&[1, 3, 1, 4], |n| m!(n(); n(), n(), n(); n(); n(), n(), n(), n())),
    (&[1, 3, 2, 1], |n| m!(n(); n(), n(), n(); n(), n(); n())),
    (&[1, 3, 2, 2], |n| m!(n(); n(), n(), n(); n(), n(); n(), n())),
    (&[1, 3, 2, 3], |n| m!(n(); n(), n(), n(); n(), n(); n(), n(), n())),
    (&[1, 3, 2, 4], |n| m!(n(); n(), n(), n(); n(), n(); n(), n(), n(), n())),
    (&[1, 3, 3, 1], |n| m!(n(); n(), n(), n(); n(), n(), n(); n())),
    (&[1, 3, 3, 2], |n| m!(n(); n(), n(), n(); n(), n(), n(); n(), n())),
    (&[1, 3, 3, 3], |n| m!(n(); n(), n(), n(); n(), n(), n(); n(), n(), n())),
    (&[1, 3, 3, 4], |n| m!(n(); n(), n(), n(); n(), n(), n(); n(), n(), n(), n())),
    (&[1, 3, 4, 1], |n| m!(n(); n(), n(), n(); n(), n(), n(), n(); n())),
    (&[1, 3, 4, 2], |n| m!(n(); n(), n(), n(); n(), n(), n(), n(); n(), n())),
    (&[1, 3, 4, 3], |n| m!(n(); n(), n(), n(); n(), n(), n(), n(); n(), n(), n())),
    (&[1, 3, 4, 4], |n| m!(n(); n(), n(), n(); n(), n(), n(), n(); n(), n(), n(), n())),
    (&[1, 4, 1, 1], |n| m!(n(); n(), n(), n(), n(); n(); n())),
    (&[1, 4, 1, 2], |n| m!(n(); n(), n(), n(), n(); n(); n(), n())),
    (&[1, 4, 1, 3], |n| m!(n(); n(), n(), n(), n(); n(); n(), n(), n())),
    (&[1, 4, 1, 4], |n| m!(n(); n(), n(), n(), n(); n(); n(), n(), n(), n())),
    (&[1, 4, 2, 1], |n| m!(n(); n(), n(), n(), n(); n(), n(); n())),
    (&[1, 4, 2, 2], |n| m!(n(); n(), n(), n(), n(); n(), n(); n(), n())),
    (&[1, 4, 2, 3], |n| m!(n(); n(), n(), n(), n(); n(), n(); n(), n(), n())),
    (&[1, 4, 2, 4], |n| m!(n(); n(), n(), n(), n(); n(), n(); n(), n(), n(), n())),
    (&[1, 4, 3, 1], |n| m!(n(); n(), n(), n(), n(); n(), n(), n(); n())),
    (&[1, 4, 3, 2], |n| m!(n(); n(), n(), n(), n(); n(), n(), n(); n(), n())),
    (&[1, 4, 3, 3], |n| m!(n(); n(), n(), n(), n(); n(), n(), n(); n(), n(), n())),
    (&[1, 4, 3, 4], |n| m!(n(); n(), n(), n(), n(); n(), n(), n(); n(), n(), n(), n())),
    (&[1, 4, 4, 1], |n| m!(n(); n(), n(), n(), n(); n(), n(), n(), n(); n())),
    (&[1, 4, 4, 2], |n| m!(n(); n(), n(), n(), n(); n(), n(), n(), n(); n(), n())),
    (&[1, 4, 4, 3], |n| m!(n(); n(), n(), n(), n(); n(), n(), n(), n(); n(), n(), n())),
    (&[1, 4, 4, 4], |n| m!(n(); n(), n(), n(), n(); n(), n(), n(), n(); n(), n(), n(), n())),
    (&[2, 1, 1, 1], |n| m!(n(), n(); n(); n(); n())),
    (&[2, 1, 1, 2], |n| m!(n(), n(); n(); n(); n(), n())),
    (&[2, 1, 1, 3], |n| m!(n(), n(); n(); n(); n(), n(), n())),
    (&[2, 1, 1, 4], |n| m!(n(), n(); n(); n(); n(), n(), n(), n())),
    (&[2, 1, 2, 1], |n| m!(n(), n(); n(); n(), n(); n())),
    (&[2, 1, 2, 2], |n| m!(n(), n(); n(); n(), n(); n(), n())),
    (&[2, 1, 2, 3], |n| m!(n(), n(); n(); n(), n(); n(), n(), n())),
    (&[2, 1, 2, 4], |n| m!(n(), n(); n(); n(), n(); n(), n(), n(), n())),
    (&[2, 1, 3, 1], |n| m!(n(), n(); n(); n(), n(), n(); n())),
    (&[2, 1, 3, 2], |n| m!(n(), n(); n(); n(), n(), n(); n(), n())),
    (&[2, 1, 3, 3], |n| m!(n(), n(); n(); n(), n(), n(); n(), n(), n())),
    (&[2, 1, 3, 4], |n| m!(n(), n(); n(); n(), n(), n(); n(), n(), n(), n())),
    (&[2, 1, 4, 1], |n| m!(n(), n(); n(); n(), n(), n(), n(); n())),
    (&[2, 1, 4, 2], |n| m!(n(), n(); n(); n(), n(), n(), n(); n(), n())),
    (&[2, 1, 4, 3], |n| m!(n(), n(); n(); n(), n(), n(), n(); n(), n(), n())),
    (&[2, 1, 4, 4], |n| m!(n(), n(); n(); n(), n(), n(), n(); n(), n(), n(), n())),
    (&[2, 2, 1, 1], |n| m!(n(), n(); n(), n(); n(); n())),
    (&[2, 2, 1, 2], |n| m!(n(), n(); n(), n(); n(); n(), n())),
    (&[2, 2, 1, 3], |n| m!(n(), n(); n(), n(); n(); n(), n(), n())),
    (&[2, 2, 1, 4], |n| m!(n(), n(); n(), n(); n(); n(), n(), n(), n())),
    (&[2, 2, 2, 1], |n| m!(n(), n(); n(), n(); n(), n(); n())),
    (&[2, 2, 2, 2], |n| m!(n(), n(); n(), n(); n(), n(); n(), n())),
    (&[2, 2, 2, 3], |n| m!(n(), n(); n(), n(); n(), n(); n(), n(), n())),
    (&[2, 2, 2, 4], |n| m!(n(), n(); n(), n(); n(), n(); n(), n(), n(), n())),
    (&[2, 2, 3, 1], |n| m!(n(), n(); n(), n(); n(), n(), n(); n())),
    (&[2, 2, 3, 2], |n| m!(n(), n(); n(), n(); n(), n(), n(); n(), n())),
    (&[2, 2, 3, 3], |n| m!(n(), n(); n(), n(); n(), n(), n(); n(), n(), n())),
    (&[2, 2, 3, 4], |n| m!(n(), n(); n(), n(); n(), n(), n(); n(), n(), n(), n())),
    (&[2, 2, 4, 1], |n| m!(n(), n(); n(), n(); n(), n(), n(), n(); n())),
    (&[2, 2, 4, 2], |n| m!(n(), n(); n(), n(); n(), n(), n(), n(); n(), n())),
    (&[2, 2, 4, 3], |n| m!(n(), n(); n(), n(); n(), n(), n(), n(); n(), n(), n())),
    (&[2, 2, 4, 4], |n| m!(n(), n(); n(), n(); n(), n(), n(), n(); n(), n(), n(), n())),
    (&[2, 3, 1, 1], |n| m!(n(), n(); n(), n(), n(); n(); n())),
    (&[2, 3, 1, 2], |n| m!(n(), n(); n(), n(), n(); n(); n(), n())),
    (&[2, 3, 1, 3], |n| m!(n(), n(); n(), n(), n(); n(); n(), n(), n())),
    (&[2, 3, 1, 4], |n| m!(n(), n(); n(), n(), n(); n(); n(), n(), n(), n())),
    (&[2, 3, 2, 1], |n| m!(n(), n(); n(), n(), n(); n(), n(); n())),
    (&[2, 3, 2, 2], |n| m!(n(), n(); n(), n(), n(); n(), n(); n(), n())),
    (&[2, 3, 2, 3], |n| m!(n(), n(); n(), n(), n(); n(), n(); n(), n(), n())),
    (&[2, 3, 2, 4], |n| m!(n(), n(); n(), n(), n(); n(), n(); n(), n(), n(), n())),
    (&[2, 3, 3, 1], |n| m!(n(), n(); n(), n(), n(); n(), n(), n(); n())),
    (&[2, 3, 3, 2], |n| m!(n(), n(); n(), n(), n(); n(), n(), n(); n(), n())),
    (&[2, 3, 3, 3], |n| m!(n(), n(); n(), n(), n(); n(), n(), n(); n(), n(), n())),
    (&[2, 3, 3, 4], |n| m!(n(), n(); n(), n(), n(); n(), n(), n(); n(), n(), n(), n())),
    (&[2, 3, 4, 1], |n| m!(n(), n(); n(), n(), n(); n(), n(), n(), n(); n())),
    (&[2, 3, 4, 2], |n| m!(n(), n(); n(), n(), n(); n(), n(), n(), n(); n(), n())),
    (&[2, 3, 4, 3], |n| m!(n(), n(); n(), n(), n(); n(), n(), n(), n(); n(), n(), n())),
    (&[2, 3, 4, 4], |n| m!(n(), n(); n(), n(), n(); n(), n(), n(), n(); n(), n(), n(), n())),
    (&[2, 4, 1, 1], |n| m!(n(), n(); n(), n(), n(), n(); n(); n())),
    (&[2, 4, 1, 2], |n| m!(n(), n(); n(), n(), n(), n(); n(); n(), n())),
    (&[2, 4, 1, 3], |n| m!(n(), n(); n(), n(), n(), n(); n(); n(), n(), n())),
    (&[2, 4, 1, 4], |n| m!(n(), n(); n(), n(), n(), n(); n(); n(), n(), n(), n())),
    (&[2, 4, 2, 1], |n| m!(n(), n(); n(), n(), n(), n(); n(), n(); n())),
    (&[2, 4, 2, 2], |n| m!(n(), n(); n(), n(), n(), n(); n(), n(); n(), n())),
    (&[2, 4, 2, 3], |n| m!(n(), n(); n(), n(), n(), n(); n(), n(); n(), n(), n())),
    (&[2, 4, 2, 4], |n| m!(n(), n(); n(), n(), n(), n(); n(), n(); n(), n(), n(), n())),
    (&[2, 4, 3, 1], |n| m!(n(), n(); n(), n(), n(), n(); n(), n(), n(); n())),
    (&[2, 4, 3, 2], |n| m!(n(), n(); n(), n(), n(), n(); n(), n(), n(); n(), n())),
    (&[2, 4, 3, 3], |n| m!(n(), n(); n(), n(), n(), n(); n(), n(), n(); n(), n(), n())),
    (&[2, 4, 3, 4], |n| m!(n(), n(); n(), n(), n(), n(); n(), n(), n(); n(), n(), n(), n())),
    (&[2, 4, 4, 1], |n| m!(n(), n(); n(), n(), n(), n(); n(), n(), n(), n(); n())),
    (&[2, 4, 4, 2], |n| m!(n(), n(); n(), n(), n(), n(); n(), n(), n(), n(); n(), n())),
    (&[2, 4, 4, 3], |n| m!(n(), n(); n(), n(), n(), n(); n(), n(), n(), n(); n(), n(), n())),
    (&[2, 4, 4, 4], |n| m!(n(), n(); n(), n(), n(), n(); n(), n(), n(), n(); n(), n(), n(), n())),
    (&[3, 1, 1, 1], |n| m!(n(), n(), n(); n(); n(); n())),
    (&[3, 1, 1, 2], |n| m!(n(), n(), n(); n(); n(); n(), n())),
    (&[3, 1, 1, 3], |n| m!(n(), n(), n(); n(); n(); n(), n(), n())),
    (&[3, 1, 1, 4], |n| m!(n(), n(), n(); n(); n(); n(), n(), n(), n())),
    (&[3, 1, 2, 1], |n| m!(n(), n(), n(); n(); n(), n(); n())),
    (&[3, 1, 2, 2], |n| m!(n(), n(), n(); n(); n(), n(); n(), n())),
    (&[3, 1, 2, 3], |n| m!(n(), n(), n(); n(); n(), n(); n(), n(), n())),
    (&[3, 1, 2, 4], |n| m!(n(), n(), n(); n(); n(), n(); n(), n(), n(), n())),
    (&[3, 1, 3, 1], |n| m!(n(), n(), n(); n(); n(), n(), n(); n())),
    (&[3, 1, 3, 2], |n| m!(n(), n(), n(); n(); n(), n(), n(); n(), n())),
    (&[3, 1, 3, 3], |n| m!(n(), n(), n(); n(); n(), n(), n(); n(), n(), n())),
    (&[3, 1, 3, 4], |n| m!(n(), n(), n(); n(); n(), n(), n(); n(), n(), n(), n())),
    (&[3, 1, 4, 1], |n| m!(n(), n(), n(); n(); n(), n(), n(), n(); n())),
    (&[3, 1, 4, 2], |n| m!(n(), n(), n(); n(); n(), n(), n(), n(); n(), n())),
    (&[3, 1, 4, 3], |n| m!(n(), n(), n(); n(); n(), n(), n(), n(); n(), n(), n())),
    (&[3, 1, 4, 4], |n| m!(n(), n(), n(); n(); n(), n(), n(), n(); n(), n(), n(), n())),
    (&[3, 2, 1, 1], |n| m!(n(), n(), n(); n(), n(); n(); n())),
    (&[3, 2, 1, 2], |n| m!(n(), n(), n(); n(), n(); n(); n(), n())),
    (&[3, 2, 1, 3], |n| m!(n(), n(), n(); n(), n(); n(); n(), n(), n())),
    (&[3, 2, 1, 4], |n| m!(n(), n(), n(); n(), n(); n(); n(), n(), n(), n())),
    (&[3, 2, 2, 1], |n| m!(n(), n(), n(); n(), n(); n(), n(); n())),
    (&[3, 2, 2, 2], |n| m!(n(), n(), n(); n(), n(); n(), n(); n(), n())),
    (&[3, 2, 2, 3], |n| m!(n(), n(), n(); n(), n(); n(), n(); n(), n(), n())),
    (&[3, 2, 2, 4], |n| m!(n(), n(), n(); n(), n(); n(), n(); n(), n(), n(), n())),
    (&[3, 2, 3, 1], |n| m!(n(), n(), n(); n(), n(); n(), n(), n(); n())),
    (&[3, 2, 3, 2], |n| m!(n(), n(), n(); n(), n(); n(), n(), n(); n(), n())),
    (&[3, 2, 3, 3], |n| m!(n(), n(), n(); n(), n(); n(), n(), n(); n(), n(), n())),
    (&[3, 2, 3, 4], |n| m!(n(), n(), n(); n(), n(); n(), n(), n(); n(), n(), n(), n())),
    (&[3, 2, 4, 1], |n| m!(n(), n(), n(); n(), n(); n(), n(), n(), n(); n())),
    (&[3, 2, 4, 2], |n| m!(n(), n(), n(); n(), n(); n(), n(), n(), n(); n(), n())),
    (&[3, 2, 4, 3], |n| m!(n(), n(), n(); n(), n(); n(), n(), n(), n(); n(), n(), n())),
    (&[3, 2, 4, 4], |n| m!(n(), n(), n(); n(), n(); n(), n(), n(), n(); n(), n(), n(), n())),
    (&[3, 3, 1, 1], |n| m!(n(), n(), n(); n(), n(), n(); n(); n())),
    (&[3, 3, 1, 2], |n| m!(n(), n(), n(); n(), n(), n(); n(); n(), n())),
    (&[3, 3, 1, 3], |n| m!(n(), n(), n(); n(), n(), n(); n(); n(), n(), n())),
    (&[3, 3, 1, 4], |n| m!(n(), n(), n(); n(), n(), n(); n(); n(), n(), n(), n())),
    (&[3, 3, 2, 1], |n| m!(n(), n(), n(); n(), n(), n(); n(), n(); n())),
    (&[3, 3, 2, 2], |n| m!(n(), n(), n(); n(), n(), n(); n(), n(); n(), n())),
    (&[3, 3, 2, 3], |n| m!(n(), n(), n(); n(), n(), n(); n(), n(); n(), n(), n())),
    (&[3, 3, 2, 4], |n| m!(n(), n(), n(); n(), n(), n(); n(), n(); n(), n(), n(), n())),
    (&[3, 3, 3, 1], |n| m!(n(), n(), n(); n(), n(), n(); n(), n(), n(); n())),
    (&[3, 3, 3, 2], |n| m!(n(), n(), n(); n(), n(), n(); n(), n(), n(); n(), n())),
    (&[3, 3, 3, 3], |n| m!(n(), n(), n(); n(), n(), n(); n(), n(), n(); n(), n(), n())),
    (&[3, 3, 3, 4], |n| m!(n(), n(), n(); n(), n(), n(); n(), n(), n(); n(), n(), n(), n())),
    (&[3, 3, 4, 1], |n| m!(n(), n(), n(); n(), n(), n(); n(), n(), n(), n(); n())),
    (&[3, 3, 4, 2], |n| m!(n(), n(), n(); n(), n(), n(); n(), n(), n(), n(); n(), n())),
    (&[3, 3, 4, 3], |n| m!(n(), n(), n(); n(), n(), n(); n(), n(), n(), n(); n(), n(), n())),
    (&[3, 3, 4, 4], |n| m!(n(), n(), n(); n(), n(), n(); n(), n(), n(), n(); n(), n(), n(), n())),
    (&[3, 4, 1, 1], |n| m!(n(), n(), n(); n(), n(), n(), n(); n(); n())),
    (&[3, 4, 1, 2], |n| m!(n(), n(), n(); n(), n(), n(), n(); n(); n(), n())),
    (&[3, 4, 1, 3], |n| m!(n(), n(), n(); n(), n(), n(), n(); n(); n(), n(), n())),
    (&[3, 4, 1, 4], |n| m!(n(), n(), n(); n(), n(), n(), n(); n(); n(), n(), n(), n())),
    (&[3, 4, 2, 1], |n| m!(n(), n(), n(); n(), n(), n(), n(); n(), n(); n())),
    (&[3, 4, 2, 2], |n| m!(n(), n(), n(); n(), n(), n(), n(); n(), n(); n(), n())),
    (&[3, 4, 2, 3], |n| m!(n(), n(), n(); n(), n(), n(), n(); n(), n(); n(), n(), n())),
    (&[3, 4, 2, 4], |n| m!(n(), n(), n(); n(), n(), n(), n(); n(), n(); n(), n(), n(), n())),
    (&[3, 4, 3, 1], |n| m!(n(), n(), n(); n(), n(), n(), n(); n(), n(), n(); n())),
    (&[3, 4, 3, 2], |n| m!(n(), n(), n(); n(), n(), n(), n(); n(), n(), n(); n(), n())),
    (&[3, 4, 3, 3], |n| m!(n(), n(), n(); n(), n(), n(), n(); n(), n(), n(); n(), n(), n())),
    (&[3, 4, 3, 4], |n| m!(n(), n(), n(); n(), n(), n(), n(); n(), n(), n(); n(), n(), n(), n())),
    (&[3, 4, 4, 1], |n| m!(n(), n(), n(); n(), n(), n(), n(); n(), n(), n(), n(); n())),
    (&[3, 4, 4, 2], |n| m!(n(), n(), n(); n(), n(), n(), n(); n(), n(), n(), n(); n(), n())),
    (&[3, 4, 4, 3], |n| m!(n(), n(), n(); n(), n(), n(), n(); n(), n(), n(), n(); n(), n(), n())),
    (&[3, 4, 4, 4], |n| m!(n(), n(), n(); n(), n(), n(), n(); n(), n(), n(), n(); n(), n(), n(), n())),
    (&[4, 1, 1, 1], |n| m!(n(), n(), n(), n(); n(); n(); n())),
    (&[4, 1, 1, 2], |n| m!(n(), n(), n(), n(); n(); n(); n(), n())),
    (&[4, 1, 1, 3], |n| m!(n(), n(), n(), n(); n(); n(); n(), n(), n())),
    (&[4, 1, 1, 4], |n| m!(n(), n(), n(), n(); n(); n(); n(), n(), n(), n())),
    (&[4, 1, 2, 1], |n| m!(n(), n(), n(), n(); n(); n(), n(); n())),
    (&[4, 1, 2, 2], |n| m!(n(), n(), n(), n(); n(); n(), n(); n(), n())),
    (&[4, 1, 2, 3], |n| m!(n(), n(), n(), n(); n(); n(), n(); n(), n(), n())),
    (&[4, 1, 2, 4], |n| m!(n(), n(), n(), n(); n(); n(), n(); n(), n(), n(), n())),
    (&[4, 1, 3, 1], |n| m!(n(), n(), n(), n(); n(); n(), n(), n(); n())),
    (&[4, 1, 3, 2], |n| m!(n(), n(), n(), n(); n(); n(), n(), n(); n(), n())),
    (&[4, 1, 3, 3], |n| m!(n(), n(), n(), n(); n(); n(), n(), n(); n(), n(), n())),
    (&[4, 1, 3, 4], |n| m!(n(), n(), n(), n(); n(); n(), n(), n(); n(), n(), n(), n())),
    (&[4, 1, 4, 1], |n| m!(n(), n(), n(), n(); n(); n(), n(), n(), n(); n())),
    (&[4, 1, 4, 2], |n| m!(n(), n(), n(), n(); n(); n(), n(), n(), n(); n(), n())),
    (&[4, 1, 4, 3], |n| m!(n(), n(), n(), n(); n(); n(), n(), n(), n(); n(), n(), n())),
    (&[4, 1, 4, 4], |n| m!(n(), n(), n(), n(); n(); n(), n(), n(), n(); n(), n(), n(), n())),
    (&[4, 2, 1, 1], |n| m!(n(), n(), n(), n(); n(), n(); n(); n())),
    (&[4, 2, 1, 2], |n| m!(n(), n(), n(), n(); n(), n(); n(); n(), n())),
    (&[4, 2, 1, 3], |n| m!(n(), n(), n(), n(); n(), n(); n(); n(), n(), n())),
    (&[4, 2, 1, 4], |n| m!(n(), n(), n(), n(); n(), n(); n(); n(), n(), n(), n())),
    (&[4, 2, 2, 1], |n| m!(n(), n(), n(), n(); n(), n(); n(), n(); n())),
    (&[4, 2, 2, 2], |n| m!(n(), n(), n(), n(); n(), n(); n(), n(); n(), n())),
    (&[4, 2, 2, 3], |n| m!(n(), n(), n(), n(); n(), n(); n(), n(); n(), n(), n())),
    (&[4, 2, 2, 4], |n| m!(n(), n(), n(), n(); n(), n(); n(), n(); n(), n(), n(), n())),
    (&[4, 2, 3, 1], |n| m!(n(), n(), n(), n(); n(), n(); n(), n(), n(); n())),
    (&[4, 2, 3, 2], |n| m!(n(), n(), n(), n(); n(), n(); n(), n(), n(); n(), n())),
    (&[4, 2, 3, 3], |n| m!(n(), n(), n(), n(); n(), n(); n(), n(), n(); n(), n(), n())),
    (&[4, 2, 3, 4], |n| m!(n(), n(), n(), n(); n(), n(); n(), n(), n(); n(), n(), n(), n())),
    (&[4, 2, 4, 1], |n| m!(n(), n(), n(), n(); n(), n(); n(), n(), n(), n(); n())),
    (&[4, 2, 4, 2], |n| m!(n(), n(), n(), n(); n(), n(); n(), n(), n(), n(); n(), n())),
    (&[4, 2, 4, 3], |n| m!(n(), n(), n(), n(); n(), n(); n(), n(), n(), n(); n(), n(), n())),
    (&[4, 2, 4, 4], |n| m!(n(), n(), n(), n(); n(), n(); n(), n(), n(), n(); n(), n(), n(), n())),
    (&[4, 3, 1, 1], |n| m!(n(), n(), n(), n(); n(), n(), n(); n(); n())),
    (&[4, 3, 1, 2], |n| m!(n(), n(), n(), n(); n(), n(), n(); n(); n(), n())),
    (&[4, 3, 1, 3], |n| m!(n(), n(), n(), n(); n(), n(), n(); n(); n(), n(), n())),
    (&[4, 3, 1, 4], |n| m!(n(), n(), n(), n(); n(), n(), n(); n(); n(), n(), n(), n())),
    (&[4, 3, 2, 1], |n| m!(n(), n(), n(), n(); n(), n(), n(); n(), n(); n())),
    (&[4, 3, 2, 2], |n| m!(n(), n(), n(), n(); n(), n(), n(); n(), n(); n(), n())),
    (&[4, 3, 2, 3], |n| m!(n(), n(), n(), n(); n(), n(), n(); n(), n(); n(), n(), n())),
    (&[4, 3, 2, 4], |n| m!(n(), n(), n(), n(); n(), n(), n(); n(), n(); n(), n(), n(), n())),
    (&[4, 3, 3, 1], |n| m!(n(), n(), n(), n(); n(), n(), n(); n(), n(), n(); n())),
    (&[4, 3, 3, 2], |n| m!(n(), n(), n(), n(); n(), n(), n(); n(), n(), n(); n(), n())),
    (&[4, 3, 3, 3], |n| m!(n(), n(), n(), n(); n(), n(), n(); n(), n(), n(); n(), n(), n())),
    (&[4, 3, 3, 4], |n| m!(n(), n(), n(), n(); n(), n(), n(); n(), n(), n(); n(), n(), n(), n())),
    (&[4, 3, 4, 1], |n| m!(n(), n(), n(), n(); n(), n(), n(); n(), n(), n(), n(); n())),
    (&[4, 3, 4, 2], |n| m!(n(), n(), n(), n(); n(), n(), n(); n(), n(), n(), n(); n(), n())),
    (&[4, 3, 4, 3], |n| m!(n(), n(), n(), n(); n(), n(), n(); n(), n(), n(), n(); n(), n(), n())),
    (&[4, 3, 4, 4], |n| m!(n(), n(), n(), n(); n(), n(), n(); n(), n(), n(), n(); n(), n(), n(), n())),
    (&[4, 4, 1, 1], |n| m!(n(), n(), n(), n(); n(), n(), n(), n(); n(); n())),
    (&[4, 4, 1, 2], |n| m!(n(), n(), n(), n(); n(), n(), n(), n(); n(); n(), n())),
    (&[4, 4, 1, 3], |n| m!(n(), n(), n(), n(); n(), n(), n(), n(); n(); n(), n(), n())),
    (&[4, 4, 1, 4], |n| m!(n(), n(), n(), n(); n(), n(), n(), n(); n(); n(), n(), n(), n())),
    (&[4, 4, 2, 1], |n| m!(n(), n(), n(), n(); n(), n(), n(), n(); n(), n(); n())),
    (&[4, 4, 2, 2], |n| m!(n(), n(), n(), n(); n(), n(), n(), n(); n(), n(); n(), n())),
    (&[4, 4, 2, 3], |n| m!(n(), n(), n(), n(); n(), n(), n(), n(); n(), n(); n(), n(), n())),
    (&[4, 4, 2, 4], |n| m!(n(), n(), n(), n(); n(), n(), n(), n(); n(), n(); n(), n(), n(), n())),
    (&[4, 4, 3, 1], |n| m!(n(), n(), n(), n(); n(), n(), n(), n(); n(), n(), n(); n())),
    (&[4, 4, 3, 2], |n| m!(n(), n(), n(), n(); n(), n(), n(), n(); n(), n(), n(); n(), n())),
    (&[4, 4, 3, 3], |n| m!(n(), n(), n(), n(); n(), n(), n(), n(); n(), n(), n(); n(), n(), n())),
    (&[4, 4, 3, 4], |n| m!(n(), n(), n(), n(); n(), n(), n(), n(); n(), n(), n(); n(), n(), n(), n())),
    (&[4, 4, 4, 1], |n| m!(n(), n(), n(), n(); n(), n(), n(), n(); n(), n(), n(), n(); n())),
    (&[4, 4, 4, 2], |n| m!(n(), n(), n(), n(); n(), n(), n(), n(); n(), n(), n(), n(); n(), n())),
    (&[4, 4, 4, 3], |n| m!(n(), n(), n(), n(); n(), n(), n(), n(); n(), n(), n(), n(); n(), n(), n())),
    (&[4, 4, 4, 4], |n| m!(n(), n(), n(), n(); n(), n(), n(), n(); n(), n(), n(), n(); n(), n(), n(), n())),
    (&[1, 1, 1, 1, 1], |n| m!(n(); n(); n(); n(); n())),
    (&[1, 1, 1, 1, 1, 1], |n| m!(n(); n(); n(); n(); n(); n())),
    (&[1, 1, 1, 1, 1, 1, 1], |n| m!(n(); n(); n(); n(); n(); n(); n())),
    (&[1, 1, 1, 1, 1, 1, 1, 1], |n| m!(n(); n(); n(); n(); n(); n(); n(); n())),
    (&[1, 1, 1, 1, 1, 1, 1, 1, 1], |n| m!(n(); n(); n(); n(); n(); n(); n(); n(); n())),
    (&[1, 1, 1, 1, 1, 1, 1, 1, 1, 1], |n| m!(n(); n(); n(); n(); n(); n(); n(); n(); n(); n())),
    (&[1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1], |n| m!(n(); n(); n(); n(); n(); n(); n(); n(); n(); n(); n())),
    (&[1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1], |n| m!(n(); n(); n(); n(); n(); n(); n(); n(); n(); n(); n(); n())),
    (&[5], |n| m!(n(), n(), n(), n(), n())),
    (&[6], |n| m!(n(), n(), n(), n(), n(), n())),
    (&[7], |n| m!(n(), n(), n(), n(), n(), n(), n())),
    (&[8], |n| m!(n(), n(), n(), n(), n(), n(), n(), n())),
    (&[9], |n| m!(n(), n(), n(), n(), n(), n(), n(), n(), n())),
    (&[10], |n| m!(n(), n(), n(), n(), n(), n(), n(), n(), n(), n())),
    (&[11], |n| m!(n(), n(), n(), n(), n(), n(), n(), n(), n(), n(), n())),
    (&[12], |n| m!(n(), n(), n(), n(), n(), n(), n(), n(), n(), n(), n(), n())),
    (&[5, 5, 5, 5, 5], |n| m!(n(), n(), n(), n(), n(); n(), n(), n(), n(), n(); n(), n(), n(), n(), n(); n(), n(), n(), n(), n(); n(), n(), n(), n(), n())),
    (&[6, 6, 6, 6, 6, 6], |n| m!(n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n())),
    (&[7, 7, 7, 7, 7, 7, 7], |n| m!(n(), n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n(), n())),
    (&[8, 8, 8, 8, 8, 8, 8, 8], |n| m!(n(), n(), n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n(), n(), n())),
    (&[5, 5, 5, 5, 4], |n| m!(n(), n(), n(), n(), n(); n(), n(), n(), n(), n(); n(), n(), n(), n(), n(); n(), n(), n(), n(), n(); n(), n(), n(), n())),
    (&[5, 5, 5, 5, 6], |n| m!(n(), n(), n(), n(), n(); n(), n(), n(), n(), n(); n(), n(), n(), n(), n(); n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n())),
    (&[4, 6, 5, 5, 5], |n| m!(n(), n(), n(), n(); n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(); n(), n(), n(), n(), n(); n(), n(), n(), n(), n())),
    (&[6, 4, 5, 5, 5], |n| m!(n(), n(), n(), n(), n(), n(); n(), n(), n(), n(); n(), n(), n(), n(), n(); n(), n(), n(), n(), n(); n(), n(), n(), n(), n())),
    (&[2, 2, 2, 2, 2, 1, 3], |n| m!(n(), n(); n(), n(); n(), n(); n(), n(); n(), n(); n(); n(), n(), n())),
    (&[8, 8, 8, 8, 7, 9, 8, 8], |n| m!(n(), n(), n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n(), n(), n())),
    (&[3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3], |n| m!(n(), n(), n(); n(), n(), n(); n(), n(), n(); n(), n(), n(); n(), n(), n(); n(), n(), n(); n(), n(), n(); n(), n(), n(); n(), n(), n(); n(), n(), n(); n(), n(), n())),
    (&[3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2], |n| m!(n(), n(), n(); n(), n(), n(); n(), n(), n(); n(), n(), n(); n(), n(), n(); n(), n(), n(); n(), n(), n(); n(), n(), n(); n(), n(), n(); n(), n(), n(); n(), n())),
    (&[3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 4], |n| m!(n(), n(), n(); n(), n(), n(); n(), n(), n(); n(), n(), n(); n(), n(), n(); n(), n(), n(); n(), n(), n(); n(), n(), n(); n(), n(), n(); n(), n(), n(); n(), n(), n(), n())),
    (&[7, 7, 7], |n| m!(n(), n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n(), n())),
    (&[1, 9], |n| m!(n(); n(), n(), n(), n(), n(), n(), n(), n(), n())),
    (&[9, 1], |n| m!(n(), n(), n(), n(), n(), n(), n(), n(), n(); n())),
    (&[12, 12], |n| m!(n(), n(), n(), n(), n(), n(), n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n(), n(), n(), n(), n(), n(), n())),
    (&[11, 13], |n| m!(n(), n(), n(), n(), n(), n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n(), n(), n(), n(), n(), n(), n(), n())),
    (&[13, 11], |n| m!(n(), n(), n(), n(), n(), n(), n(), n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n(), n(), n(), n(), n(), n())),
];
