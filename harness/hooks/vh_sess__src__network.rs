
pub fn vh_create_sessions(p: &Properties) -> HashMap<SessionId, Session> {
    create_sessions(p)
}
