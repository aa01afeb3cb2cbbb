
pub fn vh_write(w: OwnedWriteHalf, rx: TioBroadcastReceiver<String>) {
    start_app_listner_task(w, rx)
}
