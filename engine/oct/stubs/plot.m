function h = plot(varargin)
% plotting is not under test
h = 1 ;
end
