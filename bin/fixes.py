# (property, commit in /repo, what failed); meta.py writes known_findings.txt from it
FIXES = [
("B01", "fdcdfc0", "a save that met a write error or full disk reported success, and a failed or interrupted save destroyed the previous model"),
("B02", "9125717", "loading a truncated, damaged or mismatching model changed part of the parameters, or was reported as success"),
("C01", "fd230f9", "truncated or unreadable float tensor streams were accepted with unread (uninitialised) data"),
("C01", "eb9ebee", "ListTensorStream::CopySample returned true on failure and false on success paths"),
("D02", "ab27e86", "a read error in an image list silently shortened the dataset"),
("D02", "a2d86be", "patch datasets used partially read tensors of damaged streams"),
("D02", "4df261f", "testing patches were memory-mapped from the training stream's file"),
("D02", "c715e9b", "testing patches were taken from the images of the training set"),
("D02", "992856b", "images smaller than a patch made the number of patches wrap around"),
("D02", "c924b45", "testing images larger than all training images were written past the sample buffers"),
("A02", "62fb16a", "sum and concatenation layers read past inputs of different sizes"),
("A02", "654e84d", "local response normalisation read past non-square images"),
("A02", "b007ff2", "COL2IM compared the row with the width and wrote past non-square images"),
("E01", "9fcff28", "QuickProp treated only the first weight's first update as the first iteration; all others started from a step of zero"),
("E01", "3fa6d88", "testing and the end of each train command reset the momentum"),
("E03", "107e80f", "reset kept trained biases and H-Max parameters"),
("F01", "7c9d13f", "without true positives at any threshold the binary statistics read out of bounds and reported garbage"),
("G01", "56da138", "elapsed time was measured with the adjustable wall clock, giving negative throughput after a clock step"),
("G02", "e69f897", "the CSV sink used its stream when the file could not be opened"),
("G02", "00a2b35", "the graph command did not notice write errors"),
("G02", "09540e8", "write errors of the CSV sink were not reported"),
("H01", "d062c8c", "damaged PNG files and stream errors were not reported or read past buffers"),
("H01", "f1fa9cb", "damaged JPEG files ended the process; I/O errors were ignored"),
("H01", "8d9a743", "loading or writing image files reported success on failure and did not recognise some suffixes"),
("H01", "248441d", "the header of a PNG image could announce more samples than fit into 32 bits, so that rows were written past a too small buffer"),
("I01", "53d9689", "configuration parsers looped forever at the end of an incomplete description or on read errors"),
("I01", "9e4918f", "trainNetwork looped forever at the end of its input"),
("J01", "7c27fbd", "gradients of nodes with several output buffers were not accumulated per buffer when one of them was used more than once"),
("J01", "8e7e746", "connections to nodes outside of the network were not noticed"),
("L01", "c849249", "tensor stream tools did not report read and write errors"),
("L01", "7cc3b4f", "tensorStreamTool destroyed the stream when it could not be read or written"),
("L01", "198eb04", "tensorTool did not report read and write errors and looped forever at the end of its input"),
("M01", "7755dbf", "classifyImage padded the helper tensor's width using the height"),
("D02", "98787be", "image and label tensors of different sizes or map counts, and more label maps than classes, were read out of bounds"),
("I01", "7d582bd", "too many or too few push and pop lines in a net description wrote and read past the stacks"),
("I01", "bebcaf8", "zero sizes, strides and groups divided by zero, and inputs smaller than a strided kernel were read out of bounds"),
("I01", "1b24d16", "training on a dataset without training samples read out of bounds"),
("I01", "e8c4e51", "reporting a layer that has no inputs dereferenced a missing input"),
("I01", "a56540d", "the receptive field of layers without a size depended on uninitialised variables"),
("J01", "0622ae8", "gradients of outputs that nothing depends on were uninitialised memory and trained into the parameters"),
("I01", "bd7c108", "outputs of another shape than the labels were compared out of bounds"),
("I01", "6f0a6c1", "a parameter without a value in a description was uninitialised memory"),
("L01", "1176da2", "tensorStreamStats counted class weights twice"),
("L01", "79be0cb", "direct RGB labels from grayscale images were read out of bounds"),
("M01", "d10a726", "colorizing took class 0 wherever no output is positive"),
("M01", "62cfcbc", "colors of single class outputs outside of their range wrapped around"),
("M01", "b44baed", "classifyImage did not pad images like the datasets do nor check the size of the output"),
("M01", "2251c82", "classifyImage used uninitialised parameters if the model was incomplete"),
("K01", "3f48e76", "the CSV sink kept a deleted stream if the next one could not be created"),
("K01", "f06fd35", "a failed allocation could cut off the name of the CSV file"),
("K01", "4391501", "sessions ended silently if a command could not be stored"),
("K01", "3eea6bf", "numbers in descriptions became zero if memory ran out while reading them"),
("O01", "8cba1d9", "OpenCL platforms and devices that do not exist were read out of bounds"),
("O01", "f0b2ef8", "tensors on an OpenCL device were copied, transposed and searched with old values"),
("O01", "68ca5b8", "tensors kept the OpenCL buffer of their previous size after they were moved or emptied"),
("O01", "75406f4", "moved tensors forgot that they are shadows or memory maps"),
("O01", "bd02ceb", "setting one sample of a tensor on an OpenCL device used the wrong number of elements"),
("O01", "a494a7f", "tensor operations on shadows of tensors on an OpenCL device used old values"),
]
