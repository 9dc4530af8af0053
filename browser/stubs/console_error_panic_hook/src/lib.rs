pub fn set_once() {}
