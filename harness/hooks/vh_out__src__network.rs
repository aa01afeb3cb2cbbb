
impl<A: Application + Send + Sync + 'static> SocketAcceptor<A> {
    pub fn vh_sessions(&self) -> SessionMap {
        self.session_map.clone()
    }
}
