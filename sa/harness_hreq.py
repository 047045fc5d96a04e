from httplint import HttpRequestLinter, HttpResponseLinter


def main():
    r = HttpRequestLinter(start_time=choice(None, any_float()))
    r.process_request_topline(b"GET", any_bytes(), b"HTTP/1.1")
    r.process_headers(header_list(@NAMES@))
    r.feed_content(any_bytes())
    r.finish_content(any_bool())
