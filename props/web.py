"""A web server on the loopback interface, one per process, serving a dictionary of resources."""
import http.server
import os
import socket
import threading

_STATE = {}


class Handler(http.server.BaseHTTPRequestHandler):
    protocol_version = 'HTTP/1.1'

    def respond(self, body=True):
        srv = self.server
        srv.requested.append((self.command, self.path))
        status, headers, content = srv.resources.get(self.path.split('#')[0], (404, {}, b'not found'))
        self.send_response(status)
        for k, v in headers.items():
            self.send_header(k, v)
        self.send_header('Content-Length', str(len(content)))
        self.end_headers()
        if body:
            self.wfile.write(content)

    def do_GET(self):
        self.respond()

    def do_HEAD(self):
        self.respond(body=False)

    def log_message(self, *args):
        pass


class Server(http.server.ThreadingHTTPServer):
    daemon_threads = True
    address_family = socket.AF_INET
    request_queue_size = 128

    def handle_error(self, *args):
        pass


def serve(resources):
    """
    :param resources: {path (percent-encoded, with query): (status, headers, bytes)}
    :return: (base url without trailing slash, list of requests made)
    """
    srv = _STATE.get(os.getpid())
    if srv is None:
        srv = Server(('127.0.0.1', 0), Handler)
        threading.Thread(target=srv.serve_forever, kwargs={'poll_interval': 0.5}, daemon=True).start()
        _STATE[os.getpid()] = srv
    srv.resources = resources
    srv.requested = []
    return 'http://127.0.0.1:{}'.format(srv.server_port), srv.requested
