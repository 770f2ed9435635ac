"""TLS-PSK endpoints over memory BIOs (ctypes on libssl): full control over how
plaintext is cut into records and ciphertext into TCP segments."""
import ctypes as C

_ssl = C.CDLL("libssl.so.3")
_cr = C.CDLL("libcrypto.so.3")
vp = C.c_void_p


def _f(lib, name, res, *args):
    f = getattr(lib, name)
    f.restype = res
    f.argtypes = args
    return f


SSL_CTX_new = _f(_ssl, "SSL_CTX_new", vp, vp)
SSL_CTX_free = _f(_ssl, "SSL_CTX_free", None, vp)
TLS_client_method = _f(_ssl, "TLS_client_method", vp)
TLS_server_method = _f(_ssl, "TLS_server_method", vp)
SSL_CTX_set_cipher_list = _f(_ssl, "SSL_CTX_set_cipher_list", C.c_int, vp, C.c_char_p)
SSL_CTX_set_ciphersuites = _f(_ssl, "SSL_CTX_set_ciphersuites", C.c_int, vp, C.c_char_p)
SSL_CTX_ctrl = _f(_ssl, "SSL_CTX_ctrl", C.c_long, vp, C.c_int, C.c_long, vp)
SSL_CTX_set_options = _f(_ssl, "SSL_CTX_set_options", C.c_uint64, vp, C.c_uint64)
SSL_CTX_set_verify = _f(_ssl, "SSL_CTX_set_verify", None, vp, C.c_int, vp)
CPSK = C.CFUNCTYPE(C.c_uint, vp, C.c_char_p, vp, C.c_uint, vp, C.c_uint)
SPSK = C.CFUNCTYPE(C.c_uint, vp, C.c_char_p, vp, C.c_uint)
SSL_CTX_set_psk_client_callback = _f(_ssl, "SSL_CTX_set_psk_client_callback", None, vp, CPSK)
SSL_CTX_set_psk_server_callback = _f(_ssl, "SSL_CTX_set_psk_server_callback", None, vp, SPSK)
SSL_new = _f(_ssl, "SSL_new", vp, vp)
SSL_free = _f(_ssl, "SSL_free", None, vp)
SSL_set_bio = _f(_ssl, "SSL_set_bio", None, vp, vp, vp)
SSL_set_connect_state = _f(_ssl, "SSL_set_connect_state", None, vp)
SSL_set_accept_state = _f(_ssl, "SSL_set_accept_state", None, vp)
SSL_do_handshake = _f(_ssl, "SSL_do_handshake", C.c_int, vp)
SSL_read = _f(_ssl, "SSL_read", C.c_int, vp, vp, C.c_int)
SSL_write = _f(_ssl, "SSL_write", C.c_int, vp, C.c_char_p, C.c_int)
SSL_shutdown = _f(_ssl, "SSL_shutdown", C.c_int, vp)
SSL_get_error = _f(_ssl, "SSL_get_error", C.c_int, vp, C.c_int)
SSL_get_shutdown = _f(_ssl, "SSL_get_shutdown", C.c_int, vp)
SSL_get_version = _f(_ssl, "SSL_get_version", C.c_char_p, vp)
SSL_get_current_cipher = _f(_ssl, "SSL_get_current_cipher", vp, vp)
SSL_CIPHER_get_name = _f(_ssl, "SSL_CIPHER_get_name", C.c_char_p, vp)
SSL_is_init_finished = _f(_ssl, "SSL_is_init_finished", C.c_int, vp)
BIO_new = _f(_cr, "BIO_new", vp, vp)
BIO_s_mem = _f(_cr, "BIO_s_mem", vp)
BIO_write = _f(_cr, "BIO_write", C.c_int, vp, C.c_char_p, C.c_int)
BIO_read = _f(_cr, "BIO_read", C.c_int, vp, vp, C.c_int)
BIO_ctrl_pending = _f(_cr, "BIO_ctrl_pending", C.c_size_t, vp)
ERR_get_error = _f(_cr, "ERR_get_error", C.c_ulong)
ERR_clear_error = _f(_cr, "ERR_clear_error", None)
ERR_error_string = _f(_cr, "ERR_error_string", C.c_char_p, C.c_ulong, vp)

V12, V13 = 0x0303, 0x0304
PSK12 = "PSK"


class Ctx:
    """role 'client' (identity, key) or 'server' (keys: dict identity->key or a
    callable returning the key or None)."""

    def __init__(self, role, identity=None, key=None, keys=None, ver=None, ciphers="PSK@SECLEVEL=0"):
        self.role = role
        self.seen = []
        self.ctx = SSL_CTX_new(TLS_client_method() if role == "client" else TLS_server_method())
        assert SSL_CTX_set_cipher_list(self.ctx, ciphers.encode()) == 1, ciphers
        if ver:
            SSL_CTX_ctrl(self.ctx, 123, ver, None)
            SSL_CTX_ctrl(self.ctx, 124, ver, None)
        SSL_CTX_ctrl(self.ctx, 33, 1, None)  # MODE_ENABLE_PARTIAL_WRITE
        if role == "client":
            if identity is not None:
                ident = identity if isinstance(identity, bytes) else identity.encode()
                k = key if isinstance(key, bytes) else key.encode()

                def cb(ssl, hint, idbuf, idlen, pskbuf, psklen):
                    C.memmove(idbuf, ident + b"\0", min(len(ident) + 1, idlen))
                    C.memmove(pskbuf, k, min(len(k), psklen))
                    return len(k)
                self._cb = CPSK(cb)
                SSL_CTX_set_psk_client_callback(self.ctx, self._cb)
        else:
            def cbs(ssl, ident, pskbuf, psklen):
                self.seen.append(ident)
                k = keys(ident) if callable(keys) else (keys or {}).get(ident)
                if k is None:
                    return 0
                C.memmove(pskbuf, k, min(len(k), psklen))
                return len(k)
            self._cb = SPSK(cbs)
            SSL_CTX_set_psk_server_callback(self.ctx, self._cb)

    def conn(self):
        return Conn(self)

    def __del__(self):
        try:
            SSL_CTX_free(self.ctx)
        except Exception:
            pass


class Conn:
    def __init__(self, ctx):
        self.c = ctx
        self.ssl = SSL_new(ctx.ctx)
        self.rb = BIO_new(BIO_s_mem())
        self.wb = BIO_new(BIO_s_mem())
        SSL_set_bio(self.ssl, self.rb, self.wb)
        (SSL_set_connect_state if ctx.role == "client" else SSL_set_accept_state)(self.ssl)
        self.err = None          # text of a fatal TLS error
        self.eof = False         # peer sent close_notify

    def feed(self, data):
        if data:
            BIO_write(self.rb, data, len(data))

    def out(self):
        n = BIO_ctrl_pending(self.wb)
        if not n:
            return b""
        b = C.create_string_buffer(n)
        n = BIO_read(self.wb, b, n)
        return b.raw[:n] if n > 0 else b""

    def _error(self, r):
        e = SSL_get_error(self.ssl, r)
        if e in (2, 3):
            ERR_clear_error()
            return "want"
        if e == 6:
            self.eof = True
            ERR_clear_error()
            return "eof"
        c = ERR_get_error()
        self.err = ERR_error_string(c, None).decode() if c else "error %d" % e
        ERR_clear_error()
        return "err"

    @property
    def finished(self):
        return bool(SSL_is_init_finished(self.ssl))

    def handshake(self):
        ERR_clear_error()
        r = SSL_do_handshake(self.ssl)
        if r == 1:
            return "ok"
        return self._error(r)

    def write(self, data):
        """one call produces one record (for <= 16 KiB)"""
        ERR_clear_error()
        done = 0
        while done < len(data):
            r = SSL_write(self.ssl, data[done:], len(data) - done)
            if r <= 0:
                return self._error(r)
            done += r
        return "ok"

    def read(self):
        """all plaintext available"""
        res = b""
        b = C.create_string_buffer(16384)
        while not self.err:
            ERR_clear_error()
            r = SSL_read(self.ssl, b, 16384)
            if r > 0:
                res += b.raw[:r]
                continue
            self._error(r)
            break
        return res

    def shutdown(self):
        ERR_clear_error()
        r = SSL_shutdown(self.ssl)
        ERR_clear_error()
        return r

    def version(self):
        return SSL_get_version(self.ssl).decode()

    def cipher(self):
        c = SSL_get_current_cipher(self.ssl)
        return SSL_CIPHER_get_name(c).decode() if c else None

    def free(self):
        if self.ssl:
            SSL_free(self.ssl)
            self.ssl = None

    def __del__(self):
        try:
            self.free()
        except Exception:
            pass
