"""Character classes of the reference, as the spec words them."""
import unicodedata

ALNUM = ('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
         '0123456789')
URL_OK = ALNUM + '_.-~' + ';/@:+?=&()%#*,'
CTRL = ''.join(chr(c) for c in range(0x21))
URI_STOP = CTRL + '<>'
_cat = [unicodedata.category(chr(c)) for c in range(0x110000)]
UWS = '\t\n\x0c\r' + ''.join(
    chr(c) for c in range(0x110000) if _cat[c] == 'Zs')
UPUNCT = frozenset('!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~' + ''.join(
    chr(c) for c in range(0x110000) if _cat[c][0] == 'P'))
