pub fn set_once() {}
pub fn hook(_info: &std::panic::PanicHookInfo) {}
