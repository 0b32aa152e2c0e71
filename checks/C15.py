"""C15 deformatted documents are well-formed streams: text escaped, format in blanks, sentence ends marked."""
import C14


def main(chk):
    C14.check(chk, 'stream')
