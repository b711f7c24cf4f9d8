"""Persistence: the command log."""
import prog as P

BASE = 'engines/default/item_base.h'
BT = 'engines/default/coll_btree.c'


def facts(p):
    e = p.enum
    kinds = ('LIST', 'SET', 'MAP', 'BT')
    info = e('UPD_SETATTR_EXPTIME_INFO')
    return {'UNLINKED': P.macro('ADDR_MEANS_UNLINKED', BASE), 'USED': P.macro('BTREE_ITEM_STATUS_USED', BT),
            'GONE': (P.macro('BTREE_ITEM_STATUS_UNLINK', BT), P.macro('BTREE_ITEM_STATUS_FREE', BT)),
            'LINKED': P.macro('ITEM_LINKED', BASE), 'INTERNAL': P.macro('ITEM_INTERNAL', BASE),
            'NORMAL': e('ELEM_DELETE_NORMAL'), 'COLL': e('ELEM_DELETE_COLL'), 'TRIM': e('ELEM_DELETE_TRIM'),
            'NORMAL_ITEM': e('ITEM_UNLINK_NORMAL'), 'INVALID': e('ITEM_UNLINK_INVALID'), 'REPLACE': e('ITEM_UNLINK_REPLACE'),
            'INS': [e('UPD_%s_ELEM_INSERT' % k) for k in kinds], 'DROP': [e('UPD_%s_ELEM_DELETE_DROP' % k) for k in kinds],
            'ICAUSES': {e('ITEM_UNLINK_' + x) for x in ('NORMAL', 'EVICT', 'INVALID', 'REPLACE', 'STALE')},
            'ILOGGED': {e('ITEM_UNLINK_' + x) for x in ('NORMAL', 'EVICT', 'STALE')},
            'ECAUSES': {e('ELEM_DELETE_' + x) for x in ('NORMAL', 'COLL', 'TRIM')}, 'ELOGGED': {e('ELEM_DELETE_NORMAL')},
            'ATTR': {e('ATTR_EXPIRETIME'): e('UPD_SETATTR_EXPTIME'), e('ATTR_MAXCOUNT'): info, e('ATTR_OVFLACTION'): info,
                     e('ATTR_READABLE'): info, e('ATTR_MAXBKEYRANGE'): e('UPD_SETATTR_EXPTIME_INFO_BKEY')}}


def changes_logged(ctx):
    import durable
    p = ctx.load('dur')
    ctx.rule('on every path an element or item that is linked, unlinked or changed has the record of it made, with the elements, place, '
             'count, range and cause of the change and before what it names is freed; no record without its change; an entry point '
             'that changes something lies between the begin and the end of a logged request of the right kind; every record that is '
             'due is made of what was handed over and written once')
    ctx.assume('change logging is switched on once recovery is over (the functions that replay the log run before it and make no records)')
    ctx.assume('a backward removal from a list names at least one element; a delayed flush is not recorded until it takes effect')
    K = facts(p)
    durable.check(ctx, p, K)
    ctx.floor('functions judged', 60)
    ctx.floor('records and changes judged', 1500)
    ctx.floor('requests judged', 20)
    ctx.floor('records dispatched', 15)
    ctx.floor('records made', 14)


def on_disk(ctx):
    import ondisk
    p = ctx.load('dur')
    ctx.rule('on every path a logged request that succeeded is answered only where its last record lies before the mark up to which the '
             'log is on disk (or nobody waits), the mark moves only after the files were forced to disk, to where the log had been '
             'written before they were looked up, and what is written is what lies in the buffer; a record is put into free space')
    ctx.assume('a failed write to the log file stops the server (assertion)')
    K = facts(p)
    K.update(WOULDBLOCK=p.enum('ENGINE_EWOULDBLOCK'), UPD_NONE=p.enum('UPD_NONE'),
             HDR=max(m[1] + m[3] for m in p.structs['_loghdr']))
    ondisk.check(ctx, p, K)
    ctx.floor('functions judged', 12)
    ctx.floor('moves of the mark judged', 1)
    ctx.floor('states judged', 60)


def recovery(ctx):
    import recover
    p = ctx.load('dur')
    ctx.rule('recovery replays a record only when it was read as a whole and belongs to no operation whose end is missing, every complete '
             'record once and in order, stops with an error when memory runs out, reports success only where no complete record is left, '
             'and cuts the log off behind the last one')
    K = facts(p)
    K.update(HDR=max(m[1] + m[3] for m in p.structs['_loghdr']), BEGIN=p.enum('LOG_OPERATION_BEGIN'), END=p.enum('LOG_OPERATION_END'),
             ENOMEM=p.enum('ENGINE_ENOMEM'))
    recover.check(ctx, p, K)
    ctx.floor('functions judged', 1)
    ctx.floor('states judged', 20)


def checkpoints(ctx):
    import chkpt
    p = ctx.load('dur')
    ctx.rule('a checkpoint becomes the last one only when its snapshot, with the end mark, is on disk; files are removed only when a complete '
             'checkpoint replaces them and the log written for both is closed; recovery starts from the last complete snapshot and applies '
             'all of it and its log, or fails')
    K = facts(p)
    K.update(HDR=max(m[1] + m[3] for m in p.structs['_loghdr']), CHKPT=p.enum('CHKPT_SNAPSHOT_MODE_CHKPT'), DATA=p.enum('CHKPT_SNAPSHOT_MODE_DATA'),
             DONE=max(m[1] + m[3] for m in p.structs['_snapshot_done_log']), DONETYPE=p.enum('LOG_SNAPSHOT_DONE'),
             LINK=p.enum('LOG_IT_LINK'), ELEM=p.enum('LOG_SNAPSHOT_ELEM'), ENOMEM=p.enum('ENGINE_ENOMEM'), BEGIN=None, END=None)
    chkpt.check(ctx, p, K)
    ctx.floor('functions judged', 17)
    ctx.floor('states judged', 60)
