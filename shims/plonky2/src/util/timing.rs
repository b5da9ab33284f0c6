#[derive(Clone, Debug, Default)]
pub struct TimingTree;
impl TimingTree {
    pub fn new(_root_name: &str, _level: log::Level) -> Self { TimingTree }
    pub fn push(&mut self, _ctx: &str, _level: log::Level) {}
    pub fn pop(&mut self) {}
    pub fn print(&self) {}
    pub fn filter(&self, _min: std::time::Duration) -> Self { TimingTree }
}
