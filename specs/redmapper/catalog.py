import fitsio
import esutil as eu
import numpy as np
import itertools

class DataObject(object):

    def __init__(self, *arrays):
        for array in arrays:
            self._lower_array(array)
        if len(arrays) == 1:
            self._ndarray = arrays[0]
        else:
            self._ndarray = self._merge_arrays(arrays)

    @classmethod
    def from_fits_file(cls, filename, ext=1, rows=None):
        array = fitsio.read(filename, ext=ext, rows=rows, lower=True, trim_strings=True)
        return cls(array)

    @classmethod
    def from_fits_ext(cls, fits_ext):
        array = fits_ext.read(upper=True)
        return cls(array)

    @classmethod
    def zeros(cls, size, dtype):
        return cls(np.zeros(size, dtype=dtype))

    def __getattr__(self, attr):
        try:
            return self._ndarray[attr.lower()]
        except:
            return object.__getattribute__(self, attr)

    def __setattr__(self, attr, val):
        if attr == '_ndarray':
            object.__setattr__(self, attr, val)
        elif attr.lower() in self._ndarray.dtype.names:
            if hasattr(val, '__len__'):
                if len(val) == 1:
                    _val = val[0]
                else:
                    _val = val
            else:
                _val = val
            self._ndarray[attr.lower()] = _val
        else:
            object.__setattr__(self, attr, val)

    @property
    def dtype(self):
        return self._ndarray.dtype

    def add_fields(self, newdtype):
        array = np.zeros(self._ndarray.size, newdtype)
        self._lower_array(array)
        self._ndarray = self._merge_arrays([self._ndarray, array])

    def to_fits_file(self, filename, clobber=False, header=None, extname=None, indices=None):
        if self._ndarray.size == 1:
            temp_array = np.zeros(1, dtype=self._ndarray.dtype)
            temp_array[0] = self._ndarray
            if indices is not None:
                temp_array = temp_array[indices]
            fitsio.write(filename, temp_array, clobber=clobber, header=header, extname=extname)
        elif indices is None:
            fitsio.write(filename, self._ndarray, clobber=clobber, header=header, extname=extname)
        else:
            fitsio.write(filename, self._ndarray[indices], clobber=clobber, header=header, extname=extname)

    def _merge_arrays(self, arrays):
        dtype = None
        for array in arrays:
            if dtype is None:
                dtype = array.dtype.descr
                names = array.dtype.names
                size = array.size
            else:
                if array.size != size:
                    raise ValueError('Cannot merge arrays of different length')
                for name in array.dtype.names:
                    if name in names:
                        raise ValueError('Cannot merge arrays with duplicate names (%s)' % name)
                dtype.extend(array.dtype.descr)
        merged_array = np.zeros(size, dtype=dtype)
        for array in arrays:
            for name in array.dtype.names:
                merged_array[name] = array[name]
        return merged_array

    def _lower_array(self, array):
        names = list(array.dtype.names)
        array.dtype.names = [n.lower() for n in names]

    def __repr__(self):
        return repr(self._ndarray)

    def __str__(self):
        return str(self._ndarray)

    def __dir__(self):
        return sorted(set(dir(type(self)) + self.__dict__.keys() + [x.lower() for x in self._ndarray.dtype.names]))

class Entry(DataObject):

    def __init__(self, array):
        if array.size != 1:
            raise ValueError('Input array must have length one.')
        if len(array.shape) == 0:
            super(Entry, self).__init__(array)
        else:
            super(Entry, self).__init__(array[0])

    def add_fields(self, newdtype):
        array = np.zeros(self._ndarray.size, newdtype)
        self._lower_array(array)
        self._ndarray = self._merge_arrays([self._ndarray, array])[0]

    def __getattr__(self, attr):
        try:
            return self._ndarray[attr.lower()]
        except:
            return object.__getattribute__(self, attr)

class Catalog(DataObject):
    entry_class = Entry

    @property
    def size(self):
        return self._ndarray.size

    def append(self, append_cat):
        if isinstance(append_cat, Catalog):
            self._ndarray = np.append(self._ndarray, append_cat._ndarray)
        else:
            self._ndarray = np.append(self._ndarray, append_cat)

    def extend(self, n_new):
        temp = np.zeros(n_new, dtype=self._ndarray.dtype)
        self._ndarray = np.append(self._ndarray, temp)

    def __len__(self):
        return self.size

    def __getitem__(self, key):
        if isinstance(key, int):
            return self.entry_class(self._ndarray.__getitem__(key))
        return type(self)(self._ndarray.__getitem__(key))

    def __setitem__(self, key, val):
        self._ndarray.__setitem__(key, val)
