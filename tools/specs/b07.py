ID = "stream-missing-package"
PROP = "C02"
EDITS = [("cdtb/storage.py", """            r.raise_for_status()
            yield RequestStreamReader(r)""", """            if r.status_code != 404:
                r.raise_for_status()
            yield RequestStreamReader(r)""")]
NEEDS = "a package that is not available anymore (404) while streaming it"
BREAKS = "the body of the error page is extracted as if it was the package"
DEMO = '''
import sys, tempfile, threading, http.server, requests
from cdtb.rads import RadsStorage

class H(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        body = b"not found " * 10
        self.send_response(404 if "missing" in self.path else 500)
        self.send_header("Content-Length", str(len(body)))
        self.end_headers()
        self.wfile.write(body)
    def log_message(self, *a): pass

srv = http.server.HTTPServer(("127.0.0.1", 0), H)
threading.Thread(target=srv.serve_forever, daemon=True).start()
with tempfile.TemporaryDirectory() as tmp:
    s = RadsStorage(tmp, f"http://127.0.0.1:{srv.server_port}/")
    s.s.trust_env = False
    for path in ("error", "missing"):
        try:
            with s.stream(path) as reader:
                reader.copy(lambda d: None, 5)
        except requests.HTTPError:
            continue
        sys.exit(f"error response used as data: {path}")
'''
