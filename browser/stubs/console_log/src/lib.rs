pub fn init_with_level(_: log::Level) -> Result<(), ()> {
    Ok(())
}
