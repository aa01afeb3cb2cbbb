
pub fn vh_listen(r: OwnedReadHalf, tx: TioSender<String>) {
    start_socket_listener_task(r, tx)
}
