#!/usr/bin/env python3
"""Decide a property: check.py ID.  0: it held; 1: it is broken; 2: the check failed."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import charstrings, crashes, fonts, parts, tapes, vp, weaves
from common import Broken, Session


def main():
    property = sys.argv[1]
    try:
        session = Session(property)
        if property in charstrings.PLAN:
            return charstrings.check(session)
        if property in parts.PLAN:
            return parts.check(session)
        if property in fonts.PLAN:
            return fonts.check(session)
        if property == 'C18':
            return crashes.check(session)
        if property == 'C19':
            return tapes.check(session)
        if property == 'C23':
            return weaves.check(session)
        raise vp.ToolError('there is no check of ' + property)
    except Broken:
        return session.finish()
    except vp.ToolError as error:
        print('ERROR: %s' % error)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
