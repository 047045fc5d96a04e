from httplint import HttpRequestLinter, HttpResponseLinter


def use(notes):
    for n in notes:
        n.summary
        n.detail
        str(n)
        for s in n.subnotes:
            s.summary
            s.detail


def request(related):
    r = HttpRequestLinter(start_time=choice(None, any_float()), no_content=any_bool(), _related=related)
    r.base_uri = any_str("user")
    r.process_request_topline(any_bytes(), any_bytes(), any_bytes())
    r.process_headers(header_list(@NAMES@))
    r.feed_content(any_bytes())
    r.finish_content(any_bool(), choice(None, header_list(@NAMES@)))
    return r


def main():
    r = request(None)
    use(r.notes)
