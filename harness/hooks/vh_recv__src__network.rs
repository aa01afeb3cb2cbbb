
pub fn vh_receive<A: Application + Send + Sync + 'static>(rx: TioReceiver<String>, app: Arc<A>, sessions: SessionMap) {
    start_receiver_task(rx, app, sessions);
}
