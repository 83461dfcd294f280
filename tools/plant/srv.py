# symbol server stand-in: srv.py PORTFILE ROUTES.json; route: {"path": {"head": 200, "get": 200, "body": FILE or null, "text": str, "stall": 0/1, "short": 0/1}}
import json, sys, time, http.server, socketserver
R = json.load(open(sys.argv[2]))
class H(http.server.BaseHTTPRequestHandler):
    def log_message(self, *a): pass
    def ans(self, m):
        r = R.get(self.path)
        if r is None or not r.get(m):
            self.send_response(404); self.send_header('Content-Length', '0'); self.end_headers(); return
        if m == 'get' and r.get('stall'): time.sleep(280); return
        b = r['text'].encode() if 'text' in r else open(r['body'], 'rb').read()
        self.send_response(r[m]); self.send_header('Content-Length', str(len(b))); self.end_headers()
        if m == 'get': self.wfile.write(b[:len(b) // 2] if r.get('short') else b)
    def do_HEAD(self): self.ans('head')
    def do_GET(self): self.ans('get')
class S(socketserver.ThreadingMixIn, http.server.HTTPServer): daemon_threads = True
s = S(('127.0.0.1', 0), H)
open(sys.argv[1] + '.t', 'w').write(str(s.server_port)); import os; os.rename(sys.argv[1] + '.t', sys.argv[1])
s.serve_forever()
