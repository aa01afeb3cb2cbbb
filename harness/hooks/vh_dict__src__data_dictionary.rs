
impl DataDictionary {
    pub fn vh_num(&self, name: &str) -> Option<u32> {
        self.get_field_num(name)
    }
}
