"""Which harnesses decide which property."""
CHECKS = {
    'C01': dict(harnesses=[dict(name='h_iop_bin',
                                srcs=['h_iop_bin.c', 'iopm.c'],
                                viop=['vt.iop'])]),
    'C02': dict(harnesses=[dict(name='h_iop_host',
                                srcs=['h_iop_bin.c', 'iopm.c'],
                                cflags=['-DVERIF_C02'],
                                viop=['vt.iop'])]),
    'C03': dict(harnesses=[dict(name='h_iop_json',
                                srcs=['h_iop_json.c', 'iopm.c'],
                                viop=['vt.iop'])]),
    'C04': dict(harnesses=[dict(name='h_iop_xml',
                                srcs=['h_iop_xml.c', 'iopm.c'],
                                viop=['vt.iop'])]),
    'C05': dict(harnesses=[dict(name='h_iop_yaml',
                                srcs=['h_iop_yaml.c', 'iopm.c'],
                                viop=['vt.iop'])]),
    'C06': dict(harnesses=[dict(name='h_iop_val',
                                srcs=['h_iop_val.c', 'iopm.c'],
                                viop=['vt.iop'])]),
    'C07': dict(harnesses=[dict(name='h_iop_cons',
                                srcs=['h_iop_cons.c', 'iopm.c'],
                                viop=['vt.iop'])]),
    'C08': dict(harnesses=[dict(name='h_iop_path',
                                srcs=['h_iop_val.c', 'iopm.c'],
                                cflags=['-DVERIF_C08'],
                                viop=['vt.iop'])]),
    'C09': dict(harnesses=[dict(name='h_cfold', srcs=['h_cfold.c'],
                                viop=['vt.iop'])]),
    'C10': dict(harnesses=[dict(name='h_hash', srcs=['h_hash.c'])]),
    'C11': dict(harnesses=[dict(name='h_cont', srcs=['h_cont.c'])]),
    'C12': dict(harnesses=[dict(name='h_bits', srcs=['h_bits.c'])]),
    'C16': dict(harnesses=[dict(name='h_enc', srcs=['h_enc.c'])]),
    'C17': dict(harnesses=[dict(name='h_num', srcs=['h_num.c'])]),
    'C13': dict(harnesses=[dict(name='h_mem', srcs=['h_mem.c'])]),
    'C15': dict(harnesses=[dict(name='h_qhat', srcs=['h_qhat.c'])]),
    'C14': dict(harnesses=[dict(name='h_qps', srcs=['h_qps.c'], libs=['-Wl,' + ','.join('--wrap=' + f for f in ('openat', 'fdatasync', 'fsync', 'renameat', 'linkat', 'unlinkat', 'pwrite', 'pwrite64', 'writev', 'ftruncate', 'ftruncate64'))])]),
    'C18': dict(harnesses=[dict(name='h_str', srcs=['h_str.c'])]),
    'C32': dict(harnesses=[dict(name='h_charset', srcs=['h_charset.c'])]),
    'C25': dict(harnesses=[dict(name='h_hpack', srcs=['h_hpack.c'])]),
    'C27': dict(harnesses=[dict(name='h_file', srcs=['h_file.c'])]),
    'C24': dict(harnesses=[dict(name='h_http', srcs=['h_http.c'])]),
    'C19': dict(harnesses=[dict(name='h_fmt', srcs=['h_fmt.c'])]),
    'C21': dict(harnesses=[dict(name='h_asn1', srcs=['h_asn1.c'])]),
    'C22': dict(harnesses=[dict(name='h_lzo', srcs=['h_lzo.c'])]),
    'C23': dict(harnesses=[dict(name='h_crypto', srcs=['h_crypto.c'], libs=['-lcrypt']), dict(name='h_crypto_huge', srcs=['h_crypto.c'], flavor='plain', cflags=['-DVERIF_HUGE'], libs=['-lcrypt'])]),
    'C20': dict(harnesses=[dict(name='h_time', srcs=['h_time.c'])]),
    'C31': dict(harnesses=[dict(name='h_path', srcs=['h_path.c'])]),
    'C33': dict(harnesses=[dict(name='h_yaml', srcs=['h_yaml.c'])]),
    'C30': dict(harnesses=[dict(name='h_module', srcs=['h_module.c'])]),
    'C35': dict(harnesses=[dict(name='h_log', srcs=['h_log.c'])]),
    'C34': dict(harnesses=[dict(name='h_opt', srcs=['h_log.c'], cflags=['-DVERIF_OPTIONS'])]),
    'C26': dict(harnesses=[dict(name='h_rpc', srcs=['h_rpc.c'], viop=['vr.iop'],
                                libs=['-Wl,--wrap=sendmsg,--wrap=recvmsg,--wrap=read'])]),
    'C28': dict(harnesses=[dict(name='h_thr', srcs=['h_thr.c'])]),
    'C29': dict(harnesses=[dict(name='h_el', srcs=['h_el.c'])]),
}
