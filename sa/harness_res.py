from httplint import HttpRequestLinter, HttpResponseLinter


def use(notes):
    for n in notes:
        n.summary
        n.detail
        str(n)
        for s in n.subnotes:
            s.summary
            s.detail


def response(related):
    r = HttpResponseLinter(start_time=choice(None, any_float()), no_content=any_bool(), _related=related)
    r.base_uri = any_str("user")
    r.is_head_response = any_bool()
    r.process_response_topline(any_bytes(), any_bytes(), joined(None, any_bytes()))
    r.process_headers(header_list(@NAMES@))
    r.feed_content(any_bytes())
    r.finish_content(any_bool(), choice(None, header_list(@NAMES@)))
    return r


def main():
    r = response(None)
    use(r.notes)
