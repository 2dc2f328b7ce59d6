def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, reason=reason))
na("N01", "Back-propagated gradients equal the derivatives of the loss",
   "For every supported layer, hyperparameter choice and input, the gradient a network computes for each parameter and input equals the derivative of its loss at that point, up to rounding.",
   ["inputs", "configurations"], "all layer types, hyperparameters, shapes and input values", "Existing gradient tests sample a few random shapes per layer; the claim is over all shapes and values.",
   ["src/net/ConvolutionLayer.cpp", "src/net/MaxPoolingLayer.cpp", "src/net/ErrorLayer.cpp", "src/util/GradientTester.cpp"], [m("analytical backward passes", "src/net/*Layer.cpp BackPropagate"), m("finite difference tester", "src/util/GradientTester.cpp")],
   "A pure function of its inputs: no schedule, clock, I/O, crash or other party can influence it, so simulation with fault injection adds nothing over numeric input generation (its independence of threads and memory contents is decided by A01 and A02).")
na("N02", "Layers compute their documented function",
   "For every input, each layer's output equals its mathematical definition (convolution, pooling, activation, normalisation, upscaling, prior maps, losses and statistics), up to rounding.",
   ["inputs", "configurations"], "all layers, hyperparameters and inputs", "The layer tests use a handful of fixed cases per layer.",
   ["src/net/ConvolutionLayer.cpp", "src/net/AdvancedMaxPoolingLayer.cpp", "src/net/UpscaleLayer.cpp", "src/math/TensorMath.cpp"], [m("forward passes", "src/net/*Layer.cpp FeedForward")],
   "A pure function of inputs and hyperparameters with no concurrency, time, I/O or multi-party behaviour; deciding it is an input-space question (reference implementation or proof), not one of schedules or faults.")
na("N03", "Text values in configurations are parsed as written",
   "Every integer, float, name, size and colour written in a network or dataset description yields exactly that value in the built network or dataset, and absent ones yield the documented default.",
   ["inputs"], "all configuration texts", "Tests parse fixed examples.",
   ["src/util/ConfigParsing.cpp", "src/factory/ConfigurableFactory.cpp", "src/net/LayerFactory.cpp"], [m("value parsers", "src/util/ConfigParsing.cpp")],
   "A pure text-to-value function; only its behaviour under read errors depends on the environment, and that is decided by I01.")
