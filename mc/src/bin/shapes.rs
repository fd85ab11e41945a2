use mc::tree::Shapes;
fn go<const M: usize>(ns: &[usize]) {
    for &n in ns {
        let t = std::time::Instant::now();
        let s = Shapes::explore::<M>(n, 1 << 20);
        println!("M={M} n<={n}: shapes {} transitions {} broken {} {:?}", s.len(), s.transitions, s.broken, t.elapsed());
    }
}
fn main() {
    mc::shm::init_anonymous();
    go::<1>(&[6, 8, 10, 12, 14, 16, 18]);
    go::<2>(&[8, 12, 16, 18, 20]);
    go::<3>(&[8, 16, 24]);
}
