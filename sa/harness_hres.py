from httplint import HttpRequestLinter, HttpResponseLinter


def main():
    r = HttpResponseLinter(start_time=choice(None, any_float()))
    r.process_response_topline(b"HTTP/1.1", b"200", b"OK")
    r.process_headers(header_list(@NAMES@))
    r.feed_content(any_bytes())
    r.finish_content(any_bool())
