
impl Session {
    pub fn vh_view(&self) -> (u32, bool, bool, bool, bool, usize, bool) {
        (
            self.heartbeat_intrvl,
            self.reset_on_logon,
            self.reset_on_logout,
            self.reset_on_disconnect,
            self.is_active,
            self.msg_q.len(),
            self.responder.is_none(),
        )
    }
}
