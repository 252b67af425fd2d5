def wrap_socket_with_coroutine_socket(): pass
