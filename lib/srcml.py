"""ctypes binding of the public libsrcml C API (static signature table).

Codes: i int, z size_t, d double, s const char*, V pointer, n void.
"""
import ctypes, os

SIG = {
    "srcml_version_number": ("i", ""),
    "srcml_version_string": ("s", ""),
    "srcml_check_language": ("i", "s"),
    "srcml_check_extension": ("s", "s"),
    "srcml_get_language_list_size": ("z", ""),
    "srcml_get_language_list": ("s", "z"),
    "srcml_check_encoding": ("i", "s"),
    "srcml_check_xslt": ("i", ""),
    "srcml_check_exslt": ("i", ""),
    "srcml_error_string": ("s", ""),
    "srcml_memory_free": ("n", "V"),
    "srcml": ("i", "ss"),
    "srcml_set_src_encoding": ("i", "s"),
    "srcml_set_xml_encoding": ("i", "s"),
    "srcml_set_language": ("i", "s"),
    "srcml_set_filename": ("i", "s"),
    "srcml_set_url": ("i", "s"),
    "srcml_set_version": ("i", "s"),
    "srcml_set_timestamp": ("i", "s"),
    "srcml_set_options": ("i", "z"),
    "srcml_enable_option": ("i", "z"),
    "srcml_disable_option": ("i", "z"),
    "srcml_set_tabstop": ("i", "z"),
    "srcml_register_file_extension": ("i", "ss"),
    "srcml_register_namespace": ("i", "ss"),
    "srcml_set_processing_instruction": ("i", "ss"),
    "srcml_set_eol": ("i", "z"),
    "srcml_set_srcdiff_revision": ("i", "z"),
    "srcml_get_src_encoding": ("s", ""),
    "srcml_get_xml_encoding": ("s", ""),
    "srcml_get_revision": ("s", ""),
    "srcml_get_language": ("s", ""),
    "srcml_get_filename": ("s", ""),
    "srcml_get_url": ("s", ""),
    "srcml_get_version": ("s", ""),
    "srcml_get_timestamp": ("s", ""),
    "srcml_get_hash": ("s", ""),
    "srcml_get_loc": ("i", ""),
    "srcml_get_eol": ("z", ""),
    "srcml_get_options": ("i", ""),
    "srcml_get_tabstop": ("z", ""),
    "srcml_get_processing_instruction_target": ("s", ""),
    "srcml_get_processing_instruction_data": ("s", ""),
    "srcml_get_namespace_size": ("z", ""),
    "srcml_get_namespace_prefix": ("s", "z"),
    "srcml_get_prefix_from_uri": ("s", "s"),
    "srcml_get_namespace_uri": ("s", "z"),
    "srcml_get_uri_from_prefix": ("s", "s"),
    "srcml_cleanup_globals": ("n", ""),
    "srcml_archive_create": ("V", ""),
    "srcml_archive_clone": ("V", "V"),
    "srcml_archive_error_number": ("i", "V"),
    "srcml_archive_error_string": ("s", "V"),
    "srcml_archive_write_unit": ("i", "VV"),
    "srcml_archive_write_string": ("i", "Vsi"),
    "srcml_archive_close": ("i", "V"),
    "srcml_archive_free": ("n", "V"),
    "srcml_archive_write_open_filename": ("i", "Vs"),
    "srcml_archive_write_open_memory": ("i", "VVV"),
    "srcml_archive_write_open_FILE": ("i", "VV"),
    "srcml_archive_write_open_fd": ("i", "Vi"),
    "srcml_archive_write_open_io": ("i", "VVVV"),
    "srcml_archive_read_open_filename": ("i", "Vs"),
    "srcml_archive_read_open_memory": ("i", "Vsz"),
    "srcml_archive_read_open_FILE": ("i", "VV"),
    "srcml_archive_read_open_fd": ("i", "Vi"),
    "srcml_archive_read_open_io": ("i", "VVVV"),
    "srcml_archive_is_solitary_unit": ("i", "V"),
    "srcml_archive_enable_solitary_unit": ("i", "V"),
    "srcml_archive_disable_solitary_unit": ("i", "V"),
    "srcml_archive_has_hash": ("i", "V"),
    "srcml_archive_enable_hash": ("i", "V"),
    "srcml_archive_disable_hash": ("i", "V"),
    "srcml_archive_set_xml_encoding": ("i", "Vs"),
    "srcml_archive_set_src_encoding": ("i", "Vs"),
    "srcml_archive_set_language": ("i", "Vs"),
    "srcml_archive_set_options": ("i", "Vz"),
    "srcml_archive_enable_option": ("i", "Vz"),
    "srcml_archive_disable_option": ("i", "Vz"),
    "srcml_archive_set_tabstop": ("i", "Vz"),
    "srcml_archive_register_file_extension": ("i", "Vss"),
    "srcml_archive_register_namespace": ("i", "Vss"),
    "srcml_archive_set_processing_instruction": ("i", "Vss"),
    "srcml_archive_set_url": ("i", "Vs"),
    "srcml_archive_set_version": ("i", "Vs"),
    "srcml_archive_get_xml_encoding": ("s", "V"),
    "srcml_archive_get_src_encoding": ("s", "V"),
    "srcml_archive_get_revision": ("s", "V"),
    "srcml_archive_get_language": ("s", "V"),
    "srcml_archive_get_url": ("s", "V"),
    "srcml_archive_get_version": ("s", "V"),
    "srcml_archive_get_options": ("i", "V"),
    "srcml_archive_get_tabstop": ("z", "V"),
    "srcml_archive_get_namespace_size": ("z", "V"),
    "srcml_archive_get_namespace_prefix": ("s", "Vz"),
    "srcml_archive_get_prefix_from_uri": ("s", "Vs"),
    "srcml_archive_get_namespace_uri": ("s", "Vz"),
    "srcml_archive_get_uri_from_prefix": ("s", "Vs"),
    "srcml_archive_get_processing_instruction_target": ("s", "V"),
    "srcml_archive_get_processing_instruction_data": ("s", "V"),
    "srcml_archive_check_extension": ("s", "Vs"),
    "srcml_archive_read_unit_header": ("V", "V"),
    "srcml_archive_read_unit": ("V", "V"),
    "srcml_archive_skip_unit": ("i", "V"),
    "srcml_append_transform_xpath": ("i", "Vs"),
    "srcml_append_transform_xpath_attribute": ("i", "Vsssss"),
    "srcml_append_transform_xpath_element": ("i", "Vssss"),
    "srcml_append_transform_xslt_filename": ("i", "Vs"),
    "srcml_append_transform_xslt_memory": ("i", "Vsz"),
    "srcml_append_transform_xslt_FILE": ("i", "VV"),
    "srcml_append_transform_xslt_fd": ("i", "Vi"),
    "srcml_append_transform_relaxng_filename": ("i", "Vs"),
    "srcml_append_transform_relaxng_memory": ("i", "Vsz"),
    "srcml_append_transform_relaxng_FILE": ("i", "VV"),
    "srcml_append_transform_relaxng_fd": ("i", "Vi"),
    "srcml_append_transform_param": ("i", "Vss"),
    "srcml_append_transform_stringparam": ("i", "Vss"),
    "srcml_unit_apply_transforms": ("i", "VVV"),
    "srcml_transform_get_type": ("i", "V"),
    "srcml_transform_get_unit_size": ("i", "V"),
    "srcml_transform_get_unit": ("V", "Vi"),
    "srcml_transform_get_string": ("s", "V"),
    "srcml_transform_get_number": ("d", "V"),
    "srcml_transform_get_bool": ("i", "V"),
    "srcml_transform_free": ("i", "V"),
    "srcml_clear_transforms": ("i", "V"),
    "srcml_unit_create": ("V", "V"),
    "srcml_unit_clone": ("V", "V"),
    "srcml_unit_error_number": ("i", "V"),
    "srcml_unit_error_string": ("s", "V"),
    "srcml_unit_free": ("n", "V"),
    "srcml_unit_set_src_encoding": ("i", "Vs"),
    "srcml_unit_set_language": ("i", "Vs"),
    "srcml_unit_set_filename": ("i", "Vs"),
    "srcml_unit_set_version": ("i", "Vs"),
    "srcml_unit_set_timestamp": ("i", "Vs"),
    "srcml_unit_set_eol": ("i", "Vz"),
    "srcml_unit_get_src_encoding": ("s", "V"),
    "srcml_unit_get_revision": ("s", "V"),
    "srcml_unit_get_language": ("s", "V"),
    "srcml_unit_get_filename": ("s", "V"),
    "srcml_unit_get_version": ("s", "V"),
    "srcml_unit_get_timestamp": ("s", "V"),
    "srcml_unit_get_hash": ("s", "V"),
    "srcml_unit_get_loc": ("i", "V"),
    "srcml_unit_get_eol": ("z", "V"),
    "srcml_unit_get_srcml": ("s", "V"),
    "srcml_unit_get_srcml_outer": ("s", "V"),
    "srcml_unit_get_srcml_inner": ("s", "V"),
    "srcml_unit_parse_filename": ("i", "Vs"),
    "srcml_unit_parse_memory": ("i", "Vsz"),
    "srcml_unit_parse_FILE": ("i", "VV"),
    "srcml_unit_parse_fd": ("i", "Vi"),
    "srcml_unit_parse_io": ("i", "VVVV"),
    "srcml_unit_unparse_filename": ("i", "Vs"),
    "srcml_unit_unparse_memory": ("i", "VVV"),
    "srcml_unit_unparse_FILE": ("i", "VV"),
    "srcml_unit_unparse_fd": ("i", "Vi"),
    "srcml_unit_unparse_io": ("i", "VVVV"),
    "srcml_write_start_unit": ("i", "V"),
    "srcml_write_end_unit": ("i", "V"),
    "srcml_write_start_element": ("i", "Vsss"),
    "srcml_write_end_element": ("i", "V"),
    "srcml_write_namespace": ("i", "Vss"),
    "srcml_write_attribute": ("i", "Vssss"),
    "srcml_write_string": ("i", "Vs"),
    "srcml_get_srcdiff_revision": ("z", ""),
    "srcml_archive_get_srcdiff_revision": ("z", "V"),
    "srcml_archive_set_srcdiff_revision": ("i", "Vz"),
}

_T = {"i": ctypes.c_int, "z": ctypes.c_size_t, "d": ctypes.c_double,
      "s": ctypes.c_char_p, "V": ctypes.c_void_p, "n": None}

OK, ERROR, INVALID_ARGUMENT, INVALID_INPUT, INVALID_IO, IO_ERROR, UNINIT_UNIT, UNSET_LANG, NO_TRANSFORM = range(9)
OPT_NO_XML_DECL, OPT_POSITION, OPT_CPP, OPT_CPP_TEXT_ELSE, OPT_CPP_MARKUP_IF0, OPT_STORE_ENCODING = (1 << i for i in range(1, 7))
EOL_AUTO, EOL_LF, EOL_CR, EOL_CRLF = 0, 1, 2, 3
STATUS = {0: "OK", 1: "ERROR", 2: "INVALID_ARGUMENT", 3: "INVALID_INPUT", 4: "INVALID_IO",
          5: "IO_ERROR", 6: "UNINITIALIZED_UNIT", 7: "UNSET_LANGUAGE", 8: "NO_TRANSFORMATION"}

WRITECB = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int)
READCB = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int)
SREADCB = ctypes.CFUNCTYPE(ctypes.c_ssize_t, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_size_t)
CLOSECB = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_void_p)

libc = ctypes.CDLL(None)
libc.fopen.restype = ctypes.c_void_p
libc.fopen.argtypes = [ctypes.c_char_p, ctypes.c_char_p]
libc.fclose.argtypes = [ctypes.c_void_p]
libc.fdopen.restype = ctypes.c_void_p
libc.fdopen.argtypes = [ctypes.c_int, ctypes.c_char_p]
libc.fgetc.argtypes = [ctypes.c_void_p]
libc.fflush.argtypes = [ctypes.c_void_p]


class Lib:
    def __init__(self, path):
        self.path = path
        self.dll = ctypes.CDLL(path)
        for name, (r, a) in SIG.items():
            f = getattr(self.dll, name, None)
            if f is None:   # declared in srcml.h but never defined (srcml_archive_read_unit_header)
                continue
            f.restype = _T[r]
            f.argtypes = [_T[c] for c in a]
            setattr(self, name, f)


def load(path=None):
    return Lib(path or os.environ["SRCML_LIB"])
